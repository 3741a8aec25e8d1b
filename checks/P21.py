"""P21: the verifier does not miss errors, its claims are true, and its
counter-examples are real."""
import json
import re
from fractions import Fraction

from vlib import api, core, expr
from vlib.api import need
from vlib.core import Reject
from vlib.prog import Arr, Enum, Rec, Tup, Writer
from checks.P15 import data

ID = "P21"
RULE = ("the verifier analysed at least two checks and at least one of them"
        " has a run-time error on a generated object, is always true, or has"
        " a reported issue with a counter-example that was executed")
QUICK = 7000
THOROUGH = 120000
ASSUMPTIONS = ["verdicts that the solver does not reach in time are not used"]

EXPECT = {"null operand": ("vcg-evaluation-of-null", ""),
          "null dereference": ("vcg-evaluation-of-null", ""),
          "null array": ("vcg-evaluation-of-null", ""),
          "null result": ("vcg-evaluation-of-null", ""),
          "division by zero": ("vcg-div-by-zero", ""),
          "index low": ("vcg-array-index", "less than"),
          "index high": ("vcg-array-index", "larger than")}
KINDS = ["int", "int", "int", "dec", "bool", "str", "enum", "tup", "tup",
         "rec", "uni", "arr", "arr"]


class View:
    """what checks of another type of an EnvWorld can see"""

    def __init__(self, w, comps, mains):
        self.env = {c.name: c for c in comps}
        self.enums, self.epkgs, self.taken = w.enums, w.epkgs, w.taken
        self.mains = mains
        self.enum_ref = w.enum_ref


def parse(v, toks):
    try:
        e = expr.P(toks, v.env, v.enums, v.epkgs, v.taken).all()
        if expr.typ(e) != "Boolean":
            return None
        return e
    except expr.Bad:
        return None


def walk(e):
    """all expression nodes"""
    if isinstance(e, tuple) and e and isinstance(e[0], str):
        yield e
    if isinstance(e, (tuple, list)):
        for x in e:
            if isinstance(x, (tuple, list)):
                yield from walk(x)


def derefs(e):
    return any(n[0] == "field" and len(n) > 2 and
               not isinstance(expr.typ(n[1]), Tup) for n in walk(e))


def uses(e, what):
    return any(n[0] == what for n in walk(e))


def calls(e, what):
    return any(n[0] == "call" and n[1] == what for n in walk(e))


def cond_eq(e):
    """The verifier takes a null result of a conditional for an error, also
    where the conditional is compared (a documented over-approximation)"""
    return any(n[0] == "bin" and len(n) == 4 and n[1] in ("==", "!=") and
               "cond" in (n[2][0], n[3][0]) for n in walk(e))


def template(R, v):
    """-> (tokens, kind) with kind "taut" (always true), or "safe" (cannot
    fail at run time)"""
    comps = sorted(v.env.values(), key=lambda c: c.name)
    if not comps:
        return None
    c = R.choice(comps)
    n = [c.name]
    ty = c.ty
    guard = [c.name, "!=", "null", "implies"] if c.opt else []
    a, b = sorted([R.int(-5, 5), R.int(-5, 5)])

    def num(i):
        return ["(", "-", str(-i), ")"] if i < 0 else [str(i)]

    same = [d for d in comps if d is not c and (d.ty is ty or d.ty == ty)]
    if same and R.bool(30):
        d = R.choice(same)
        m = [d.name]
        if isinstance(ty, Tup):
            for f in ty.comps:
                if f.opt and not (c.opt or d.opt):
                    return (["("] + n + [".", f.name, "==", "null", "and"] + m +
                            [".", f.name, "!=", "null", ")", "implies"] +
                            R.choice([n + ["!="] + m, m + ["!="] + n]),
                            "taut")
        if c.opt or d.opt:
            return R.choice([
                (["("] + n + ["==", "null", "and"] + m +
                 ["!=", "null", ")", "implies"] + n + ["!="] + m, "taut"),
                (["("] + n + ["==", "null", "and"] + m + ["==", "null", ")", "implies"] +
                 n + ["=="] + m, "taut"),
                (["("] + n + ["!=", "null", "and"] + m +
                 ["==", "null", ")", "implies"] + "not ( {} == {} )".format(c.name, d.name).split(" "),
                 "taut")])
    if ty == "Integer":
        return R.choice([
            (guard + ["("] + n + ["<"] + num(a) + ["implies"] + n + ["<"] +
             num(b + 1) + [")"], "taut"),
            (guard + ["("] + n + ["*", "2", "=="] + n + ["+"] + n + [")"],
             "taut"),
            (guard + ["("] + n + [">"] + num(a) + ["or"] + n + ["<="] +
             num(a) + [")"], "taut"),
            (guard + ["(", "if"] + n + [">"] + num(a) + ["then"] + n + [">="]
             + num(a + 1) + ["else"] + n + ["<="] + num(a) + [")"], "taut"),
            (guard + ["("] + n + ["!=", "0", "implies", "100", "/"] + n +
             [">"] + num(a) + [")"], "safe"),
            ([c.name, "!=", "null", "and"] + n + [">"] + num(a), "safe"),
            ([c.name, "==", "null", "or"] + n + [">"] + num(a), "safe"),
            (["(", "if"] + n + ["==", "null", "then", "true", "else"] + n +
             [">"] + num(a) + [")"], "safe"),
        ])
    if ty == "Boolean":
        return R.choice([
            (guard + ["("] + n + ["or", "not"] + n + [")"], "taut"),
            (guard + ["not", "("] + n + ["and", "not"] + n + [")"], "taut"),
            (guard + n, "safe"),
            ([c.name, "!=", "null", "and"] + n, "safe"),
        ])
    if ty in ("String", "Markup_String"):
        return R.choice([
            (guard + ["("] + ["len", "("] + n + [")", ">=", "0", ")"],
             "taut"),
            (guard + ["(", "len", "("] + n + [")", ">", str(b + 6), ")"],
             "safe"),
            ([c.name, "==", "null", "or", '"a"', "in"] + n, "safe"),
        ])
    if isinstance(ty, Enum):
        e1, e2 = R.choice(ty.lits), R.choice(ty.lits)
        en = v.enum_ref(R, ty) + ["."]
        return R.choice([
            (n + ["=="] + en + [e1, "or"] + n + ["!="] + en + [e1], "taut"),
            (n + ["=="] + en + [e1, "implies"] + n + ["!=", "null"], "taut"),
            (n + ["=="] + en + [e2], "safe"),
        ])
    if isinstance(ty, Arr):
        i = R.int(0, 3)
        cmp = None
        if ty.elem == "Integer":
            cmp = ["<"] + num(b)
        elif ty.elem in ("String", "Boolean", "Decimal"):
            cmp = ["==", {"String": '"a"', "Boolean": "true",
                          "Decimal": "1.5"}[ty.elem]]
        opts = [(guard + ["(", "len", "("] + n + [")", ">=", str(ty.lo),
                          ")"], "taut")]
        if ty.hi is not None:
            opts.append((guard + ["(", "len", "("] + n +
                         [")", "<=", str(ty.hi), ")"], "taut"))
        if cmp:
            opts.append((guard + ["(", "len", "("] + n +
                         [")", ">", str(i), "implies"] + n +
                         ["[", str(i), "]"] + cmp + [")"], "safe"))
            opts.append((guard + ["(", "forall", "qx", "in"] + n +
                         ["=>", "qx"] + cmp + [")"], "safe"))
        return R.choice(opts)
    if isinstance(ty, Tup):
        f = R.choice(ty.comps)
        path = n + [".", f.name]
        g = guard
        if f.opt:
            g = g + ["("] + path + ["!=", "null", "implies"]
        end = [")"] if f.opt else []
        if f.ty == "Integer":
            return R.choice([
                (g + ["("] + path + [">"] + num(a) + ["or"] + path +
                 ["<="] + num(a) + [")"] + end, "taut"),
                (g + ["("] + path + [">"] + num(a) + [")"] + end, "safe")])
        return (n + ["==", "null", "or"] + n + ["!=", "null"], "taut")
    return (n + ["==", "null", "or"] + n + ["!=", "null"], "taut")


TEXTS = ['"a b"', '"a\\"b"', '"\\""', '"\\"\\""', '"a\\b"', '"\u00e9\u20ac"',
         '"x\'\'\'"', '"\\u{41}"', '"""a\\"""', '"""a\nb"""', '"""a\nb\'"""',
         '"""\'\'\'a\nb"""', '"""a\nb\\"""', '"/* a"', '"//"']


def trap(R, v, toks):
    """a check which fails at run time if the given expression is true (or
    false)"""
    if R.bool():
        toks = ["not", "("] + toks + [")"]
    else:
        toks = ["("] + toks + [")"]
    opts = []
    for c in sorted(v.env.values(), key=lambda c: c.name):
        if c.ty == "String":
            # needs a certain text
            opts.append(([c.name, "==", "null", "or"] if c.opt else []) +
                        ["1", "/", "(", "if", c.name, "==", R.choice(TEXTS),
                         "and"] + toks + ["then", "0", "else", "1", ")",
                                          ">", "0"])
        if isinstance(c.ty, Enum):
            opts.append(["1", "/", "(", "if", c.name, "=="] +
                        v.enum_ref(R, c.ty) + [".", R.choice(c.ty.lits),
                        "and"] + toks + ["then", "0", "else", "1", ")",
                                         ">", "0"])
        if c.opt and c.ty == "Integer":
            opts.append(["("] + toks + ["and", c.name, "==", "null", ")",
                                        "implies", c.name, ">", "0"])
        if isinstance(c.ty, Arr) and not c.opt and c.ty.elem == "Integer":
            opts.append(toks + ["implies", c.name, "[", "0", "-", "1", "]",
                                ">", "0"])
        if isinstance(c.ty, Arr) and not c.opt and c.ty.hi is not None and \
           c.ty.elem == "Boolean":
            opts.append(toks + ["implies", c.name, "[", str(c.ty.hi), "]"])
    if not opts:
        return toks
    return R.choice(opts)


def risky(R, g, v):
    """a check with one operand which may be null, at any position"""
    opt = g.paths(lambda t: t in ("Integer", "Boolean", "String", "Decimal"),
                  2)
    opt = [p for p in opt if p[1] and None not in p[0]]
    if not opt:
        return None
    p, _, ty = R.choice(opt)
    cond = ["("] + g.at(0, "Boolean", R.int(0, 1)) + [")"]
    lit = {"Integer": "3", "Boolean": "true", "String": '"a"',
           "Decimal": "1.5"}[ty]
    k = R.int(0, 9)
    if k <= 1:
        p = ["(", "if"] + cond + ["then", lit, "else"] + p + [")"]
    elif k == 2:
        p = ["(", "if"] + cond + ["then"] + p + ["else", lit, ")"]
    elif k == 3:
        p = ["(", "if"] + cond + ["then", lit, "elsif"] + \
            g.at(0, "Boolean", 0) + ["then"] + p + ["else", lit, ")"]
    if ty == "Boolean":
        t = R.choice([p, ["not"] + p, ["true", "xor"] + p, p + ["xor"] + cond,
                      ["oneof", "(", "false", ","] + p + [")"],
                      cond + ["implies"] + p, p + ["implies"] + cond,
                      cond + ["or"] + p, cond + ["and"] + p])
    elif ty == "String":
        t = R.choice([["len", "("] + p + [")", ">", "0"],
                      ["startswith", "("] + p + [",", '"a"', ")"],
                      ["endswith", "(", '"a"', ","] + p + [")"],
                      ['"a"', "in"] + p, p + ["in", '"ab"'],
                      p + ["+", '"b"', "==", '"ab"'],
                      ["matches", "("] + p + [",", '"a"', ")"]])
    else:
        two = "2" if ty == "Integer" else "2.0"
        t = R.choice([p + [">", two], [two, "<="] + p,
                      p + ["in", two, ".."] + [lit],
                      [two, "in"] + p + [".."] + [lit],
                      [two, "in", two, ".."] + p,
                      ["abs"] + p + [">", two], ["-"] + p + ["<", two],
                      p + ["*", two, ">", two], [two, "-"] + p + [">", two],
                      p + ["**", "2", ">", two],
                      ["(", two, "+"] + p + [")", "*", two, "!=", two],
                      ["Integer" if ty == "Decimal" else "Decimal",
                       "("] + p + [")", "!=",
                                   "3" if ty == "Decimal" else "3.0"]])
    return R.choice([t, t, cond + ["or", "("] + t + [")"],
                     cond + ["and", "("] + t + [")"],
                     cond + ["implies", "("] + t + [")"]])


def variations(w, ctxs, tuples):
    """further objects, which differ from the given ones in one component"""
    rv = []
    frozen = w.rec.frozen()
    comps = [c for c in w.rec.comps() if c.name not in frozen]
    for ctx in ctxs:
        for c in comps:
            old = ctx[c.name]
            new = []
            if c.opt and old is not None:
                new.append(None)
            if c.ty == "Integer":
                new += [0, 1, -1, 2, 3]
                new += [old + 1, old - 1, -old] if old is not None else []
            elif c.ty == "Decimal":
                new += [Fraction(0), Fraction(-1), Fraction(3, 2)]
            elif c.ty == "Boolean":
                new += [True, False]
            elif c.ty in expr.STR:
                new += ["", "a", "foo"]
            elif isinstance(c.ty, Enum):
                new += [expr.EnumV(c.ty, l) for l in c.ty.lits]
            elif isinstance(c.ty, Arr) and old is not None:
                if len(old) > c.ty.lo:
                    new += [old[1:], old[:-1], old[:c.ty.lo]]
                if old and (c.ty.hi is None or len(old) < c.ty.hi):
                    new.append(old + old[:1])
            elif isinstance(c.ty, Tup) and old is not None and not tuples:
                for f in c.ty.comps:
                    if f.opt:
                        cut = c.ty.comps.index(f)
                        new.append({g.name: old[g.name] if i < cut else None
                                    for i, g in enumerate(c.ty.comps)})
                        break
            rv += [dict(ctx, **{c.name: x}) for x in new if x != old]
    return rv


def block(R, w, v, name, prefix, n, sevs):
    """checks for one type"""
    rv = []
    refs = [c for c in v.env.values() if not c.opt and
            c.ty in (w.B, w.X)]
    ints = [c for c in v.env.values() if c.opt and c.ty == "Integer"]
    if refs and ints and R.bool(40):
        # checks which follow references come last
        r = min(refs, key=lambda c: c.name).name
        i = min(ints, key=lambda c: c.name).name
        for toks, kind, sev in (
                ([r, ".", "n", ">", i], "safe", None),
                ([i, "!=", "null"], "", "fatal")):
            rv.append({"toks": toks, "kind": kind, "sev": sev, "type": name,
                       "msg": "%sR%u" % (prefix, len(rv)),
                       "e": parse(v, toks)})
    g = expr.Gen(R, v, null_pct=R.choice([0, 3, 8]))
    risks = R.bool(50)
    for i in range(n):
        kind = ""
        toks = None
        if R.bool(30):
            t = template(R, v)
            if t:
                toks, kind = t
        if toks is None and risks and R.bool(50):
            toks = risky(R, g, v)
        if toks is None:
            toks = g.at(0, "Boolean", R.int(1, 3))
            if R.bool(30):
                toks = trap(R, v, toks)
        e = parse(v, toks)
        if e is None:
            if kind:
                raise AssertionError(toks)
            raise Reject()
        rv.append({"toks": toks, "kind": kind, "sev": R.choice(sevs),
                   "msg": "%s%u" % (prefix, i), "type": name, "e": e})
    return rv


def tuple_values(v, ty, out):
    if v is None:
        return
    if isinstance(ty, Tup):
        out.setdefault(ty, []).append(v)
        for c in ty.comps:
            tuple_values(v[c.name], c.ty, out)
    elif isinstance(ty, Arr):
        for x in v:
            tuple_values(x, ty.elem, out)


def outcome(e, ctx):
    try:
        v = expr.Ev(ctx).value(e)
    except expr.RunErr as err:
        return str(err)
    return "null result" if v is None else v


def render(w, checks):
    R = w.R
    wr = Writer(R, w.pkg, False)
    names = []
    for c in checks:
        if c["type"] not in names:
            names.append(c["type"])
    for n in names:
        wr.t("checks", n, "{")
        wr.nl()
        for c in checks:
            if c["type"] == n:
                wr.t(*c["toks"])
                wr.t(",")
                if c["sev"]:
                    wr.t(c["sev"])
                wr.t('"' + c["msg"] + '"')
                wr.nl()
        wr.t("}")
        wr.nl()
    # (to be appended to the types)
    return wr.text().split("\n", 1)[1]


def gen(R):
    w = expr.EnvWorld(R, n_obj=R.int(1, 5), opt_pct=40, kinds=KINDS, second=20,
                      freeze=R.weighted((6, "simple"), (1, True)))
    ctxs = [expr.fields(o) for o in w.mains]
    checks = []
    tupvals = {}
    for o in w.objs:
        f = expr.fields(o)
        for c in o.typ.comps():
            tuple_values(f[c.name], c.ty, tupvals)
    bad_tuples = False
    for t in (w.T, w.G):
        if not R.bool(25):
            continue
        v = View(w, t.comps, [])
        for c in block(R, w, v, t.name, t.name[0], R.int(1, 2),
                       [None, "fatal", "error", "warning"]):
            c["res"] = [outcome(c["e"], x) for x in tupvals.get(t, [])]
            if c["sev"] != "warning" and any(r is not True
                                             for r in c["res"]):
                bad_tuples = True
            checks.append(c)
    par = w.rec.parent
    mains = []
    if par and R.bool(60):
        v = View(w, par.comps(), w.mains)
        mains += block(R, w, v, par.name, "P", R.int(1, 2),
                       [None, "error", "warning", "fatal"])
    mains += block(R, w, w, "Main_T", "C", R.int(1, 4),
                   [None, None, "error", "warning", "fatal"])
    for x in ([] if bad_tuples else
              variations(w, ctxs[:2], bool(checks))):
        try:
            for c in mains:
                outcome(c["e"], x)
        except expr.Ambiguous:
            continue
        ctxs.append(x)
    for c in mains:
        c["res"] = [outcome(c["e"], x) for x in ctxs]
    fatal_ok = [[c["sev"] != "fatal" or c["res"][i] is True for c in mains]
                for i in range(len(ctxs))]
    for k, c in enumerate(mains):
        c["deref"] = derefs(c["e"])
        # the objects for which the verifier cannot rule out that the check
        # is evaluated
        c["reach"] = [] if bad_tuples else [
            r for i, r in enumerate(c["res"])
            if all(ok for j, ok in enumerate(fatal_ok[i]) if j != k)]
    for c in checks:
        c["deref"] = False
        others = [d for d in checks if d is not c and d["type"] == c["type"]
                  and d["sev"] == "fatal"]
        c["reach"] = [r for i, r in enumerate(c["res"])
                      if all(d["res"][i] is True for d in others)]
        # the checks of the nested tuple type must hold as well
        if c["type"] == w.G.name and bad_tuples:
            c["reach"] = []
    checks += mains
    base = w.files([])
    objs = {n: t for n, t in base.items() if n != "main.rsl"}
    case = {"types": base["main.rsl"], "objs": objs,
            "checks": render(w, checks), "info": [], "one": {}}
    for i, c in enumerate(checks):
        before = [d for d in checks[:i] if d["sev"] == "fatal"]
        case["info"].append({
            "msg": c["msg"], "type": c["type"], "kind": c["kind"],
            "deref": c["deref"],
            "tuple": c["type"] in (w.T.name, w.G.name),
            "error": sorted({r for r in c["reach"] if isinstance(r, str)}),
            "false": False in c["reach"],
            # a counter-example for this check can be executed
            "exec": not (uses(c["e"], "quant") or calls(c["e"], "matches") or
                         any(uses(d["e"], "quant") or
                             calls(d["e"], "matches") for d in before) or
                         cond_eq(c["e"]) or
                         any(d["deref"] for d in before) or c["deref"] or
                         c["type"] in (w.T.name, w.G.name))})
        case["one"][c["msg"]] = render(
            w, [d for d in checks if d is c or d["type"] in
                (w.T.name, w.G.name) or
                (d in before and (d["type"] == c["type"] or
                                  c["type"] == "Main_T"))])
    # the solver may not reach a verdict with non-linear knowledge
    case["linear"] = not any(
        set(c["toks"]) & {"*", "/", "%", "**"} for c in checks
        if c["sev"] == "fatal" or c["type"] in (w.T.name, w.G.name))
    case["frozen"] = sorted(w.rec.frozen())
    return case


class Recorder(api.Message_Handler):
    def __init__(self, **kw):
        super().__init__(**kw)
        self.issues = []

    def check(self, location, message, check, explanation=None):
        self.issues.append([location.file_name, location.line_no, check,
                            message, explanation])
        super().check(location, message, check, explanation)


def check(case):
    return tuple(core.forked(lambda: decide(case), 20))


def line_map(text, infos):
    rv = {}
    lines = []
    for i, l in enumerate(text.split("\n"), 1):
        if l.startswith("checks "):
            lines = []
            continue
        lines.append(i)
        for info in infos:
            if '"%s"' % info["msg"] in l:
                rv.update((k, info) for k in lines)
                lines = []
    return rv


def decide(case):
    files = {"main.rsl": case["types"] + case["checks"]}
    files.update(case["objs"])
    plain = api.process(files, lint=True)
    res = api.process(files, lint=True, verify=True, handler=Recorder)

    def ctx():
        return "%s\n%s\n%s" % (
            "\n".join(str(i) for i in res.mh.issues), res.text,
            api.show(files))

    # purely advisory
    def other(r):
        return [m.key() for m in r.msgs
                if not (m.cat or "").startswith("vcg-") and
                not (m.kind == "warning" and
                     "not yet supported in VCG" in m.msg)]
    need(other(plain) == other(res), "the verifier changes other messages:"
         "\n%s\n%s", plain.text, ctx())
    need((plain.stab is None) == (res.stab is None) and
         plain.mh.errors == res.mh.errors,
         "the verifier changes the result\n%s", ctx())
    if plain.stab is not None:
        need(json.dumps(data(plain.stab)) == json.dumps(data(res.stab)),
             "the verifier changes the data\n%s", ctx())

    lines = line_map(files["main.rsl"], case["info"])
    # analysis not complete for these types
    partial = set()
    for m in res.msgs:
        if m.kind == "warning" and "not yet supported in VCG" in m.msg:
            info = lines.get(m.line) if m.file == "main.rsl" else None
            partial |= {"Main_T"} if info is None else {info["type"],
                                                        "Main_T"}
            if info and info["tuple"]:
                partial |= {"Par_T", "Gen_T"}
    found = {}
    for fn, line, cat, msg, det in res.mh.issues:
        if not cat.startswith("vcg-"):
            continue
        need(fn == "main.rsl" and line in lines,
             "verifier issue outside of any check: %s:%s %s %s\n%s", fn, line,
             cat, msg, ctx())
        found.setdefault(lines[line]["msg"], []).append([cat, msg, det])
    useful = False
    executed = 0
    for info in case["info"]:
        iss = found.get(info["msg"], [])
        cats = [c for c, _, _ in iss]
        whole = info["type"] not in partial
        for err in info["error"]:
            if not whole:
                break
            c, t = EXPECT[err]
            need(any(x[0] == c and t in x[1] for x in iss),
                 "check %s of %s has a run-time error (%s) on an object or a "
                 "variation of one, but the verifier does not report it\n%s", info["msg"],
                 info["type"], err, ctx())
            useful = True
        if "vcg-always-true" in cats:
            useful = True
            need(not info["false"],
                 "check %s of %s is said to be always true but is false for "
                 "an object\n%s", info["msg"], info["type"], ctx())
        if info["kind"] == "taut" and whole and case["linear"]:
            need("vcg-always-true" in cats,
                 "check %s of %s is always true but the verifier does not say"
                 " so\n%s", info["msg"], info["type"], ctx())
            useful = True
        for cat, msg, det in iss:
            if cat == "vcg-always-true":
                continue
            sure = det is not None and "unreliable" not in det
            need(info["kind"] == "" or not sure,
                 "check %s of %s cannot fail, but the verifier says: %s (%s)"
                 "\n%s\n%s", info["msg"], info["type"], msg, cat, det, ctx())
            if sure and info["exec"] and executed < 3:
                if run_example(case, info, cat, msg, det, set(found)):
                    executed += 1
    n = len(case["info"])
    return [n >= 2 and (useful or executed > 0),
            "%s%s%s" % ("partial " if partial else "",
                        "useful " if useful else "",
                        "executed" if executed else "")]


WORDS = {"vcg-evaluation-of-null": ("null",),
         "vcg-div-by-zero": ("zero", "divi"),
         "vcg-array-index": ("array", "index")}


def run_example(case, info, cat, msg, det, issues):
    lines = det.split("\n")
    need(len(lines) >= 3 and lines[0].startswith("example record_type") and
         lines[1].strip() == "%s bad_potato {" % info["type"] and
         lines[-1].strip() == "}", "unexpected counter-example\n%s\n%s", det,
         api.show({"main.rsl": case["checks"]}))
    body = []
    skipping = False
    for l in lines[2:-1]:
        if skipping:
            # the rest of the text of a frozen component
            if skipping in l:
                skipping = False
            continue
        if any(x in l for x in ("instance_", "???", "unable")) or " / " in l:
            return False
        name = l.strip().split(" ")[0]
        if name in case["frozen"] and info["type"] == "Main_T":
            for q in ("'''", '"""'):
                if l.split(" = ", 1)[-1].startswith(q) and l.count(q) == 1:
                    skipping = q
            continue
        body.append(l)
    files = {"main.rsl": case["types"] + case["one"][info["msg"]]}
    for n in ("aux.trlc", "second.rsl", "second.trlc"):
        if n in case["objs"]:
            files[n] = case["objs"][n]
    files["ex.trlc"] = "package Main\n%s%s\n%s\n}\n" % (
        "import Aux\n" if "second.rsl" in files else "", lines[1],
        "\n".join(body))
    res = api.process(files)
    ok = False
    where = line_map(files["main.rsl"], case["info"])
    tups = [i["msg"] for i in case["info"] if i["tuple"]]
    for m in res.msgs:
        if m.msg in tups:
            # nothing is known about tuples in arrays
            return False
        ref = re.search(r"\(main\.rsl:(\d+)\)", m.msg)
        if m.kind == "error" and (m.file == "main.rsl" or ref):
            i = where.get(int(ref.group(1)) if ref else m.line)
            if i and i["msg"] == info["msg"] and \
               any(x in m.msg for x in WORDS[cat]):
                ok = True
            elif i and i["msg"] in issues:
                # another check which is reported as well fails first
                return False
    need(ok, "the counter-example for check %s (%s: %s) does not trigger the "
         "error\n%s\n%s", info["msg"], cat, msg, res.text, api.show(files))
    return True
