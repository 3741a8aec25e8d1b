"""P22: error recovery - every mistake is reported, nothing that is correct is
blamed, and switching recovery off only leaves messages out."""
import re

from vlib import api
from vlib.api import need

ID = "P22"
RULE = ("at least two mistakes in different declarations of one file, or"
        " mistakes in two files")
QUICK = 24000
THOROUGH = 800000

KINDS = {"n": "Integer", "s": "String", "b": "Boolean", "d": "Decimal",
         "k": "Kind", "r": "Base", "l": "Integer [1 .. 2]", "t": "Tup",
         "m": "Markup_String",
         # named like something that is not a record type
         "Kind": "Integer", "Tup": "Integer", "base_1": "Integer",
         "len": "Integer"}
PLAIN = ["n", "s", "b", "d", "l", "Kind", "base_1", "len"]
GOOD = {"n": ["1", "-5", "0x1f"], "s": ['"x"', "'''y'''"],
        "b": ["true", "false"], "d": ["1.5", "-0.25"],
        "k": ["Kind.lo", "Kind.hi"], "r": ["base_1", "base_2"],
        "l": ["[1]", "[2, 3]"], "t": ["(1, 2)", "(-1, 4)"],
        "m": ['"a b"', '"see [[base_1]]"']}
BAD = {"n": ['"x"', "true", "1.5", "", "base_1", "- -1", "Kind.lo", "[1]"],
       "s": ["1", "true", "", "x", "[\"a\"]"],
       "b": ["1", '"true"', "maybe", "", "True"],
       "d": ["1", '"x"', "", "- 3"],
       "k": ["Kind.no", "lo", "3", "", "Base.lo", "Kind", '"lo"'],
       "r": ["1", '"x"', "Nope.x", "", "[base_1]"],
       "l": ["1", "[true]", "[1,, 2]", "(1, 2)", "", '["x"]'],
       "t": ["(1)", "(1, true)", "[1, 2]", "(1 2)", "1", "", '("x", 2)'],
       "m": ["3", '"[[ "', '"a ]]"', '"[[x y]]"', ""]}
LATE = {"r": ["nope", "P.nope", "base_3"],
        "m": ['"[[nope]]"', '"a [[base_1, P.nope]] [[no]]"', '"[[Kind]]"']}
for _c in ("Kind", "Tup", "base_1", "len"):
    GOOD[_c] = GOOD["n"]
    BAD[_c] = BAD["n"]
LEXICAL = ['"abc', "12ab", "$", "'''"]


class Decl:
    def __init__(self, name, lines, bad=None):
        self.name, self.lines, self.bad = name, lines, bad


class Typ:
    def __init__(self, name, pkg, comps, opts, abstract, final):
        self.name, self.pkg, self.comps = name, pkg, comps
        self.opts, self.abstract, self.final = opts, abstract, final


def qualify(text, pkg):
    """what is declared in P as seen from another package"""
    if pkg == "P":
        return text
    return re.sub(r"(?<!P\.)\b(Kind|Base|Tup|base_\d)\b", r"P.\1", text)


def type_decl(R, i, fault, pkg, types):
    """a record type on lines of its own"""
    name = "Type_%u" % i
    avail = list(KINDS) if pkg != "U" else list(PLAIN)
    parents = [t for t in types if not t.final and
               t.pkg in ({"P": "P", "U": "U"}.get(pkg, "PQ"))]
    parent = None
    if parents and R.bool(30) and fault not in ("extends", "similar"):
        parent = R.choice(parents)
        avail = [c for c in avail if c not in parent.comps]
    comps = R.sample(avail, R.int(1, min(5, len(avail)))) if avail else []
    kw = R.weighted((6, ""), (1, "abstract "), (1, "final "))
    head = kw + "type %s" % name
    if parent:
        head += " extends " + (parent.name if parent.pkg == pkg else
                               "P." + parent.name)
    opts = [c for c in comps if R.bool(50)]
    lines = ["  %s %s%s" % (c, "optional " if c in opts else "",
                            qualify(KINDS[c], pkg)) for c in comps]
    at = R.int(0, len(lines))
    if not lines and fault in ("dup comp", "no type"):
        fault = "comp type"
    if fault == "comp type":
        lines.insert(at, "  zz " + R.choice(["Nope", "Nope.Integer", "Kind.lo",
                                             "len", "1", "[Tup, Base]"]))
    elif fault == "dup comp":
        lines.append(lines[R.int(0, len(lines) - 1)])
    elif fault == "no type":
        lines.insert(at, R.choice(["  zz", "  optional", "  zz optional"]))
        if at == len(lines) - 1 or lines[at] != "  optional":
            lines[at] = "  zz optional optional"
    elif fault == "extends":
        head += " extends " + R.choice(["Nope", "Kind", "Tup", "Integer",
                                        "Base.Base"])
    elif fault == "freeze":
        lines.insert(0, "  freeze zz = 1")
    elif fault == "bounds":
        lines.insert(at, "  zz Integer [%s]" % R.choice(
            ["1 ..", ".. 2", "a .. 3", "-1 .. 2", "1"]))
    elif fault == "head":
        head = R.choice(["type type %s", "type enum %s", "type checks %s",
                         "abstract abstract type %s", "abstract enum %s",
                         "final tuple %s", "type %s extends abstract",
                         "type tuple", "enum type %s", "tuple checks %s",
                         "type %s type"])
        head = head % name if "%" in head else head
    elif fault == "similar":
        lines.insert(0, "  a_b Integer")
        lines.append("  AB Integer")
    d = Decl(name, [head + " {"] + lines + ["}"], bad=fault)
    return d, Typ(name, pkg, (parent.comps if parent else []) + comps,
                  (parent.opts if parent else []) + opts,
                  kw == "abstract ", kw == "final ")


TYPE_FAULTS = ["comp type", "dup comp", "no type", "extends", "freeze",
               "bounds", "similar", "head"]
CHECK_FAULTS = ["not bool", "unknown", "type", "mixed", "no message",
                "operator", "target"]
MISC_FAULTS = ["enum", "tuple", "optional", "tuple sep"]


def check_block(R, target, comps, i, fault):
    lines = []
    n = R.int(1, 3)
    at = R.int(0, n - 1)
    head = "checks " + target
    for j in range(n):
        sev = R.choice(["", "warning ", "error ", "fatal "])
        e, msg = R.choice(["1 == 1", "2 < 3", "true or false"]), '"m %u"' % j
        if j == at and fault:
            if fault == "not bool":
                e = R.choice(["1 + 1", '"x"', "2.5"])
            elif fault == "unknown":
                e = R.choice(["zz == 1", "zz", "len(zz) > 0"])
            elif fault == "type":
                e = R.choice(['1 == "x"', "1 < 2.5", "true + 1 == 2"])
            elif fault == "mixed":
                e = R.choice(["true and true or false", "1 < 2 < 3"])
            elif fault == "no message":
                msg = R.choice(["", "5", "error"])
            elif fault == "operator":
                e = R.choice(["1 ==", "(1 == 1", "== 1", "not", "1 = 1"])
            elif fault == "target":
                head = "checks " + R.choice(["Nope", "Kind", "Integer"])
        lines.append("  %s, %s%s" % (e, sev, msg))
    return Decl("block_%u" % i, [head + " {"] + lines + ["}"], bad=fault)


def misc_decl(R, n, bad):
    k = R.choice(MISC_FAULTS)
    if k == "enum":
        d = Decl("En_%u" % n, ["enum En_%u {" % n, "  a", "  b",
                               "  a" if bad else "  c", "}"])
    elif k == "tuple":
        d = Decl("Tu_%u" % n, ["tuple Tu_%u {" % n, "  a Integer",
                               "  a Integer" if bad else "  b Integer", "}"])
    elif k == "optional":
        d = Decl("Tu_%u" % n, ["tuple Tu_%u {" % n, "  a Integer",
                               "  b optional Integer" if bad else
                               "  b Integer", "}"])
    else:
        d = Decl("Tu_%u" % n, ["tuple Tu_%u {" % n, "  a Integer",
                               "  separator b" if bad else "  separator @",
                               "  separator @" if bad else "",
                               "  b Integer", "}"])
    d.bad = k if bad else None
    return d


def model(R, pkg, types, p_bad):
    """declarations of one package"""
    decls = []
    for i in range(R.int(1, 5) if pkg == "P" else R.int(1, 3)):
        fault = R.choice(TYPE_FAULTS) if R.bool(p_bad) else None
        d, t = type_decl(R, len(types) + 10 * i, fault, pkg, types)
        while any(t.name == x.name for x in decls):
            t.name = d.name = d.name + "_"
        decls.append(d)
        if not fault:
            types.append(t)
        mine = [t for t in types if t.pkg == pkg]
        if mine and R.bool(50):
            t = R.choice(mine)
            fault = R.choice(CHECK_FAULTS) if R.bool(p_bad) else None
            decls.append(check_block(R, t.name, t.comps, len(decls), fault))
        if R.bool(20):
            decls.append(misc_decl(R, len(decls), R.bool(p_bad)))
    return decls


def obj_decl(R, n, t, pkg, types, p_bad, late):
    name = "obj_%u" % n
    tname = t.name if t.pkg == pkg else "P." + t.name
    vals = R.shuffle([c for c in t.comps
                      if c not in t.opts or R.bool(70)])
    head = "%s %s {" % (tname, name)
    bad = None
    fault = R.bool(p_bad) and R.choice(
        ["value", "value", "value", "unknown", "assign", "twice", "missing",
         "type", "name", "dup", "abstract"])
    if late:
        fault = R.bool(60) and "late"
        can = [c for c in vals if c in LATE]
        fault = fault if can else None
    at = R.int(0, max(0, len(vals) - 1))
    lines = []
    for j, c in enumerate(vals):
        v = R.choice(GOOD[c])
        op = " = "
        if fault == "late" and c in LATE and (c == can[0] or R.bool(50)):
            v = R.choice(LATE[c])
            bad = fault
        if fault in ("value", "assign", "missing") and j == at:
            if fault == "value":
                v = R.choice(BAD[c])
                bad = fault
            elif fault == "assign":
                op = R.choice([" ", " == ", " : "])
                bad = fault
            elif c not in t.opts:
                bad = fault
                continue
        lines.append("  " + c + op + qualify(v, pkg))
        if fault == "twice" and j == at:
            lines.append("  %s = %s" % (c, qualify(R.choice(GOOD[c]), pkg)))
            bad = fault
    if fault == "unknown":
        lines.insert(R.int(0, len(lines)), "  zz = " +
                     R.choice(["1", '"x"', "[1, 2]", "(1"]))
        bad = fault
    elif fault == "type":
        head = "%s %s {" % (R.choice(["Nope", "Kind", "Tup", "Integer",
                                      "P.Nope", "Nope.T"]), name)
        bad = fault
    elif fault == "name":
        head = "%s %s {" % (tname, R.choice(["5", '"x"', "type", "=",
                                             "x_%u y" % n]))
        bad = fault
    elif fault == "dup":
        mine = [x.name for x in types if x.pkg == pkg] or ["obj_%u_" % n]
        other = R.choice(mine)
        if R.bool(50):
            other = other.replace("_", "").lower()
        head = "%s %s {" % (tname, other)
        bad = fault if mine[0] != "obj_%u_" % n else None
    elif fault == "abstract":
        ts = [x for x in types if x.abstract and x.pkg == pkg]
        if ts:
            head = "%s %s {" % (R.choice(ts).name, name)
            bad = fault
    return Decl(name, [head] + lines + ["}"], bad=bad)


def gen(R):
    base = ["package P",
            "enum Kind {", "  lo", "  hi", "}",
            "tuple Tup {", "  x Integer", "  y Integer", "}",
            "type Base {", "}"]
    types = []
    late = R.bool(15)
    files = {}
    spans = []

    def emit(name, pre, decls):
        lines = list(pre)
        ket = None
        for i, d in enumerate(decls):
            if ket is None and R.bool(15) and name.endswith(".trlc"):
                ket = i + R.int(0, 2)
                if any(x.bad for x in decls[i:ket + 1]):
                    ket = None
                else:
                    lines += ['section "%s" {' % R.choice("xyz")]
            a = len(lines) + 1
            lines += d.lines
            spans.append([name, a, len(lines), d.bad])
            if ket == i:
                lines += ["}"]
                ket = None
            if R.bool(30):
                lines += ["", "// next"]
        if ket is not None:
            lines += ["}"]
        files[name] = "\n".join(lines) + "\n"

    p_bad = R.choice([0, 20, 40, 60]) if R.bool(60) and not late else 0
    emit("p.rsl", base, model(R, "P", types, p_bad))
    pkgs = ["P"]
    if R.bool(40):
        pkgs.append("Q")
        emit(R.choice(["q.rsl", "a.rsl"]), ["package Q", "import P"],
             model(R, "Q", types, p_bad if R.bool(70) else 0))
    if R.bool(20):
        pkgs.append("U")
        emit("u.rsl", ["package U"],
             model(R, "U", types, p_bad if R.bool(70) else 0))
    # objects
    p_bad = R.choice([0, 15, 30, 50, 80]) if not late else 0
    n = 0
    names = R.sample(["a.trlc", "b.trlc", "sub/c.trlc", "d.trlc"],
                     R.int(1, 4))
    lexical = None
    for f in names:
        pkg = R.choice(pkgs)
        objs = []
        if f == names[0]:
            pkg = "P"
            for b in ("base_1", "base_2"):
                objs.append(Decl(b, ["Base %s {" % b, "}"]))
        for _ in range(R.int(1, 6)):
            ts = [t for t in types if not t.abstract and
                  (t.pkg == pkg or (t.pkg == "P" and pkg == "Q"))]
            if not ts:
                break
            n += 1
            objs.append(obj_decl(R, n, R.choice(ts), pkg, types, p_bad, late))
        pre = ["package " + pkg] + (["import P"] if pkg == "Q" else [])
        emit(f, pre, objs)
        if R.bool(4) and not lexical and not late and pkg == "P":
            files[f] += "Base lexi {\n  %s\n}\nBase other {\n" % \
                R.choice(LEXICAL)
            lexical = f
    order = sorted(files)
    R.shuffle(order)
    return {"files": {k: files[k] for k in order}, "spans": spans,
            "lexical": lexical, "lint": R.bool(20), "late": late}


def run(case, recovery):
    return api.process(case["files"], recovery=recovery, lint=case["lint"])


def check(case):
    a = run(case, True)
    b = run(case, False)

    def ctx():
        return "\n=== with recovery\n%s\n=== without\n%s\n%s" % (
            a.text, b.text, api.show(case["files"]))
    bad = [s for s in case["spans"] if s[3]]
    wrong = bool(bad) or bool(case["lexical"])
    need((a.stab is None) == wrong and (b.stab is None) == wrong,
         "accepted: %s and %s, expected %s%s", a.stab is not None,
         b.stab is not None, not wrong, ctx())
    need(bool(a.errors()) == wrong and bool(b.errors()) == wrong,
         "errors%s", ctx())
    if not wrong:
        need(a.text == b.text, "recovery changes messages%s", ctx())
        return False, "valid"
    # with recovery
    hit = {i: 0 for i in range(len(case["spans"]))}
    lost = 0
    for m in a.errors():
        for i, (f, lo, hi, _) in enumerate(case["spans"]):
            if f == m.file and lo <= m.line <= hi:
                hit[i] += 1
                break
        else:
            need(m.file == case["lexical"], "error at no declaration: %s%s",
                 m.raw, ctx())
    for i, (f, lo, hi, fault) in enumerate(case["spans"]):
        prev = case["spans"][i - 1]
        if fault == "type" and not f.endswith(".rsl") and prev[0] == f and prev[3]:
            # after an error, a line which does not start with the name of
            # a record type is not seen as the start of a declaration
            continue
        if fault:
            need(hit[i] == 1, "mistake (%s) in lines %u to %u of %s is "
                 "reported %u times%s", fault, lo, hi, f, hit[i], ctx())
        else:
            need(not hit[i], "error in the correct lines %u to %u of %s%s",
                 lo, hi, f, ctx())
    # without
    if case["late"]:
        need(a.text == b.text, "recovery changes messages about references%s",
             ctx())
        return len(bad) > 1, "late"
    ra = [m.raw for m in a.errors()]
    files = {}
    for m in b.errors():
        need(m.raw in ra, "only reported without recovery: %s%s", m.raw,
             ctx())
        files.setdefault(m.file, []).append(m)
    for f, ms in files.items():
        need(len(ms) == 1, "%u errors in %s without recovery%s", len(ms), f,
             ctx())
        first = [m for m in a.errors() if m.file == f][0]
        need(ms[0].raw == first.raw, "without recovery the first error of %s"
             " is %s, with it %s%s", f, ms[0].raw, first.raw, ctx())
    per = {}
    for s in bad:
        per[s[0]] = per.get(s[0], 0) + 1
    want = {f for f in per if f.endswith(".rsl")}
    if "p.rsl" in want:
        # what depends on a broken package is not looked at
        want -= {"q.rsl", "a.rsl"}
    want = want or set(per) | ({case["lexical"]} if case["lexical"] else set())
    need(set(files) == want, "without recovery errors are in %s, expected %s"
         "%s", sorted(files), sorted(want), ctx())
    return (max(per.values(), default=0) >= 2 or len(per) >= 2,
            "%u mistakes" % min(len(bad), 4))
