"""P12: expression grammar - operator chains and token mutations judged by
an independent parser."""
from vlib import expr
from vlib.core import Reject
from vlib.exprcheck import make, decide, C, nontrivial

ID = "P12"
RULE = "the expression has at least 5 tokens"
QUICK = 30000
THOROUGH = 600000
KINDS = ["int", "int", "int", "dec", "bool", "bool", "bool", "str", "arr"]

SOUP = ["(", ")", "+", "-", "*", "/", "%", "**", "==", "!=", "<", "<=", ">",
        ">=", "and", "or", "xor", "implies", "not", "abs", "in", "..", "if",
        "then", "elsif", "else", "forall", "exists", "=>", "true", "null",
        "1", "2.5", '"a"', ".", "[", "]", "len", "=", ":", "@"]


def chain(R, g, ty, n):
    """flat operator chain with operands of one type; parentheses and
    prefix operators anywhere"""
    if ty == "Boolean":
        ops = ["and", "or", "xor", "implies", "and", "or", "==", "!="]
        pre = ["not"]
    else:
        ops = ["+", "-", "*", "/", "**"] + \
            (["%"] if ty == "Integer" else [])
        pre = ["-", "-", "+", "abs"]
    same_op = R.choice(ops) if R.bool(30) else None
    toks = []
    depth = 0
    for i in range(n):
        if i:
            toks.append(same_op or R.choice(ops))
        while R.bool(15):
            toks.append("(")
            depth += 1
        if R.bool(22):
            toks.append(R.choice(pre))
        if toks and toks[-1] == "**" and R.bool(90):
            toks.append(R.choice(["0", "1", "2", "3"]))
        else:
            toks += g.at(5, ty, R.weighted((5, 0), (1, 1)))
        while depth and R.bool(40):
            toks.append(")")
            depth -= 1
    return toks + [")"] * depth


def mutate(R, toks):
    toks = list(toks)
    for _ in range(R.weighted((4, 1), (2, 2))):
        i = R.int(0, len(toks) - 1)
        k = R.int(0, 4)
        if k == 0 and len(toks) > 1:
            del toks[i]
        elif k == 1:
            toks.insert(i, R.choice(SOUP))
        elif k == 2:
            toks[i] = R.choice(SOUP)
        elif k == 3:
            j = R.int(0, len(toks) - 1)
            toks[i], toks[j] = toks[j], toks[i]
        else:
            toks.insert(i, R.choice(toks))
    return toks


def gen(R):
    w = expr.EnvWorld(R, opt_pct=5, kinds=KINDS, inherit=False, freeze=False)
    g = expr.Gen(R, w, null_pct=0)
    k = R.weighted((4, "chain"), (4, "pin"), (4, "mutate"))
    if k == "chain":
        if R.bool(60):
            toks = chain(R, g, "Boolean", R.int(2, 5))
        else:
            toks = []
            ty = R.choice(["Integer", "Decimal"])
            for i in range(R.int(2, 3)):
                if i:
                    toks.append(R.choice(["<", "<=", "==", "!=", ">", "in",
                                          "..", "and", "or"]))
                toks += chain(R, g, ty, R.int(1, 3))
    elif k == "pin":
        ty = R.choice(["Integer", "Integer", "Decimal"])
        toks = chain(R, g, ty, R.int(2, 6))
        if R.bool(20):
            toks = mutate(R, toks)
        if not R.bool(5):
            toks = pin(g, toks)
    else:
        toks = mutate(R, g.at(0, "Boolean", R.int(1, 3)))
    # a top-level comma could end the check expression
    depth = 0
    for t in toks:
        if t in ("(", "["):
            depth += 1
        elif t in (")", "]"):
            depth -= 1
        elif t == "," and depth <= 0:
            raise Reject()
    if len(toks) > 90:
        raise Reject()
    return make(w, [C(toks, 0)])


def pin(g, toks):
    try:
        e = expr.P(toks, g.w.env, g.w.enums, g.w.epkgs, g.w.taken).all()
        expr.typ(e)
        v = expr.Ev(g.ctx).value(e)
    except (expr.Bad, expr.RunErr):
        return toks + ["==", "1"]
    if v is None or isinstance(v, bool):
        return toks
    n, d = (v, 1) if isinstance(v, int) else (v.numerator, v.denominator)
    if abs(n) > 10 ** 300 or d > 10 ** 300:
        raise Reject()
    sign = ["-"] if n < 0 else []
    if isinstance(v, int):
        lit = sign + [str(abs(n))]
    else:
        lit = sign + ["%u.0" % abs(n)] + (["/", "%u.0" % d] if d > 1 else [])
    return toks + ["=="] + lit


def check(case):
    _, tag = decide(case)
    return nontrivial(case, 5), tag
