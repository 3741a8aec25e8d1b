"""P08: static typing of check expressions - well-typed expressions with one
operand, operator, or name exchanged, judged by an independent checker."""
from vlib import expr
from vlib.core import Reject
from vlib.exprcheck import make, decide, C, nontrivial

ID = "P08"
RULE = ("the expression has at least 3 tokens and was changed by a typing"
        " mutation")
QUICK = 30000
THOROUGH = 600000
CMP = ["==", "!=", "<", "<=", ">", ">="]
GROUPS = [CMP, ["+", "-", "*", "/", "%"], ["and", "or", "xor", "implies"],
          ["startswith", "endswith", "matches"],
          ["len", "Integer", "Decimal", "oneof"], ["not", "abs", "-", "+"],
          CMP + ["+", "-", "*", "/", "%", "**", "in"]]


def operand(R, g, d):
    """operand of any type"""
    k = R.weighted((3, "lit"), (6, "path"), (1, "null"), (2, "expr"),
                   (1, "tname"))
    if k == "null":
        return ["null"]
    if k == "tname":
        return [R.choice(["Main_T", "E_T", "Tup_T", "Integer", "Boolean",
                          "len", "nonexist", "Main", "String"])]
    if k == "lit":
        ty = R.choice(["Integer", "Decimal", "Boolean", "String", g.w.E,
                       g.w.F] + ([g.w.E2, g.w.E2] if g.w.aux else []))
        return g.lit(ty)[1]
    if k == "path":
        # also fields for which the members of a union disagree
        g.conflicts = R.bool(40)
        n = g.name_of(lambda t: True, 2)
        g.conflicts = False
        if n is None:
            raise Reject()
        g.last = n[1]
        return n[0]
    return g.at(5, R.choice(["Integer", "Decimal", "Boolean", "String"]), d)


def like(R, g, toks):
    """operand of the same type as the given one, or its element type"""
    try:
        ty = expr.typ(expr.P(toks, g.w.env, g.w.enums, g.w.epkgs,
                             g.w.taken).all())
    except Reject:
        return operand(R, g, 1)
    except expr.Bad:
        # the type of a field of one of the members of a union
        ty = g.last
    if g.w.aux and R.bool(30):
        # a type with the same name in the other package
        name = getattr(ty, "name", None)
        n = g.name_of(lambda t: name and t is not ty and
                      getattr(t, "name", None) == name or
                      isinstance(t, expr.Arr) and t.elem is not ty and
                      getattr(t.elem, "name", "") == name, 2)
        if n:
            return n[0]
    if R.bool(20):
        n = g.name_of(lambda t: isinstance(t, expr.Arr) and
                      (t.elem is ty or t.elem == ty), 2)
        if n:
            return n[0]
    if ty is None or R.bool(20):
        return operand(R, g, 1)
    return g.at(5, ty, 1)


def is_operand(t):
    return t[0] == '"' or t[0].isdigit() or \
        t in ("true", "false", "null") or \
        (t[0].isalpha() and t not in expr.RESERVED and
         t not in expr.FUNCTIONS)


def spans(toks):
    """spans of name expressions and literals"""
    rv = []
    i = 0
    while i < len(toks):
        if is_operand(toks[i]) and not (i and toks[i - 1] in (
                ".", "forall", "exists")):
            j = i + 1
            while j < len(toks):
                if toks[j] == "." and j + 1 < len(toks):
                    j += 2
                elif toks[j] == "[":
                    depth = 1
                    j += 1
                    while j < len(toks) and depth:
                        depth += toks[j] == "["
                        depth -= toks[j] == "]"
                        j += 1
                else:
                    break
            rv.append((i, j))
        i += 1
    return rv


def mutate(R, g, toks):
    toks = list(toks)
    k = R.weighted((6, "operand"), (3, "op"), (1, "drop_arg"), (1, "field"),
                   (1, "index"), (1, "extra_arg"))
    sp = spans(toks)
    if k == "operand" and sp:
        i, j = R.choice(sp)
        return toks[:i] + operand(R, g, 1) + toks[j:]
    if g.w.aux and R.bool(15):
        # the other package
        c = [i for i, t in enumerate(toks) if t in ("E_T", "Tup_T", "Base_T")]
        if c:
            i = R.choice(c)
            if i > 1 and toks[i - 1] == ".":
                return toks[:i - 2] + toks[i:]
            return toks[:i] + ["Aux", "."] + toks[i:]
    if k == "op":
        c = [(i, gr) for i, t in enumerate(toks) for gr in GROUPS if t in gr]
        if c:
            i, gr = R.choice(c)
            toks[i] = R.choice(gr)
            return toks
    if k == "field" and sp:
        _, j = R.choice(sp)
        return toks[:j] + [".", R.choice(["n", "s", "m", "z", "tx", "ty",
                                          "gp", "A", "nx"])] + toks[j:]
    if k == "index" and sp:
        _, j = R.choice(sp)
        return toks[:j] + ["["] + operand(R, g, 0) + ["]"] + toks[j:]
    if k in ("drop_arg", "extra_arg"):
        c = [i for i, t in enumerate(toks[:-2])
             if t in expr.FUNCTIONS and toks[i + 1] == "("]
        if c:
            i = R.choice(c) + 1
            if k == "extra_arg":
                return toks[:i + 1] + operand(R, g, 0) + [","] + toks[i + 1:]
            depth = 0
            for j in range(i, len(toks)):
                if toks[j] in ("(", "["):
                    depth += 1
                elif toks[j] in (")", "]"):
                    depth -= 1
                    if depth == 0:
                        return toks[:i + 1] + toks[j:]
                elif toks[j] == "," and depth == 1:
                    return toks[:i + 1] + toks[j + 1:]
    return toks


def gen(R):
    w = expr.EnvWorld(R, second=30)
    g = expr.Gen(R, w)
    g.last = None
    k = R.weighted((5, "mutate"), (5, "flat"), (1, "whole"))
    if k == "mutate":
        toks = g.at(0, "Boolean", R.int(1, 3))
        new = toks
        for _ in range(R.weighted((5, 1), (1, 2))):
            new = mutate(R, g, new)
        changed = new != toks
    elif k == "whole":
        new = g.at(0, R.choice(["Integer", "Decimal", "String", "Boolean"]),
                   2)
        if R.bool(40):
            new = operand(R, g, 1)
        changed = True
    else:
        # one operator or construct applied to operands of any types
        changed = True
        a, b, c = operand(R, g, 1), None, None
        b = like(R, g, a) if R.bool(65) else operand(R, g, 1)
        c = like(R, g, a) if R.bool(65) else operand(R, g, 1)
        kk = R.int(0, 10)
        if kk == 10:
            # two references
            n = [g.name_of(lambda t: isinstance(t, (expr.Rec, expr.Uni)), 1)
                 for _ in range(2)]
            if None in n:
                raise Reject()
            new = n[0][0] + [R.choice(["==", "!="])] + n[1][0]
        elif kk <= 2:
            new = a + [R.choice(CMP)] + b
        elif kk == 3:
            new = a + (["not"] if R.bool(20) else []) + ["in"] + b
        elif kk == 4:
            new = a + ["in"] + b + [".."] + c
        elif kk == 5:
            new = a + [R.choice(["+", "-", "*", "/", "%", "**"])] + b + \
                [R.choice(CMP)] + c
        elif kk == 6:
            new = a + [R.choice(["and", "or", "xor", "implies"])] + b
        elif kk == 7:
            f = R.choice(sorted(expr.FUNCTIONS))
            args = [a, b, c][:R.weighted((3, 1), (5, 2), (1, 3))]
            new = [f, "("]
            for i, x in enumerate(args):
                new += ([","] if i else []) + x
            new += [")"]
            if f in ("len", "Integer", "Decimal"):
                new += [R.choice(CMP)] + R.choice([["1"], ["1.0"], c])
        elif kk == 8:
            new = ["(", "if"] + g.at(0, "Boolean", 1) + ["then"] + a + \
                ["else"] + b + [")", R.choice(["==", "!="])] + \
                R.choice([a, b, c])
            if R.bool(20):
                new[2:3] = operand(R, g, 0)
        else:
            op = R.choice(["-", "+", "abs", "not"])
            new = [op] + a
            if R.bool(80):
                new += [R.choice(CMP)] + b
    depth = 0
    for t in new:
        depth += t in ("(", "[")
        depth -= t in (")", "]")
        if t == "," and depth <= 0:
            raise Reject()
    case = make(w, [C(new, 0)])
    case["changed"] = changed
    return case


def check(case):
    _, tag = decide(case)
    return nontrivial(case, 3) and case["changed"], tag
