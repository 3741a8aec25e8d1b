"""P25: references inside markup strings - an independent parser of their
content decides which objects they denote, or where the error is."""
from vlib import api
from vlib.api import need, ast

ID = "P25"
RULE = ("at least three references in at least two markup strings, or one"
        " mistake in a program with at least two markup strings")
QUICK = 24000
THOROUGH = 800000

TEXT = ["the ", "car", " shall ", "[", "]", "a,b", ".", "x [y] z", " ", "(",
        ")", "caf\u00e9", "\u65e5\u672c", "'", "#[", "1", "[ [", "] ]",
        "\t", "{}", "$", "/* no */", "// no", "a.b"]
NAMES = ["obj", "foo_1", "Bar", "zed", "x9", "Long_Name", "w", "type_1",
         "inn", "nulls"]


class Lit:
    """content of one markup string: pieces (text, [(offset, target)])"""
    def __init__(self):
        self.text = ""
        self.refs = []          # (offset of the name, target)
        self.bad = None         # (offset, exact?)


def spelled(R, fqn, own):
    pkg, name = fqn.split(".")
    if pkg == own and R.bool(70):
        return [name]
    return [pkg, ".", name]


FAULTS = ["unknown", "type", "enum", "package", "foreign", "unknown pkg",
          "qualifier", "not imported", "nest", "unopened", "unclosed",
          "empty", "comma first", "comma last", "comma missing", "dots",
          "three", "number", "char", "single", "unknown in pkg", "builtin",
          "type in pkg", "dot last", "string", "extends"]


def make_list(R, lit, multi, targets, own, fault):
    """one reference list"""
    def ws():
        lit.text += R.choice(["", "", "", " ", "  ", "\t"] +
                             (["\n", "\n   "] if multi else []))

    def put(toks, target):
        for i, t in enumerate(toks):
            if i:
                ws()
            if i == len(toks) - 1 and target:
                lit.refs.append((len(lit.text), target))
            lit.text += t

    def mark(exact=False):
        lit.bad = (len(lit.text), exact)

    lit.text += "[["
    n = R.weighted((5, 1), (3, 2), (1, 3), (1, 4))
    where = R.int(0, n - 1)
    if fault == "empty":
        ws()
        mark()
        lit.text += "]]"
        return
    for i in range(n):
        ws()
        here = fault if i == where else None
        if i:
            if not (here == "comma missing"):
                lit.text += ","
            else:
                lit.text += " "
            ws()
        names = None
        if here == "comma first":
            mark()
            lit.text += ","
            ws()
        t = R.choice(targets)
        toks = spelled(R, t, own)
        pre, last = [own, "."] if R.bool(30) else [], None
        if here == "unknown":
            last = R.choice(["nope", "Obj", "OBJ", "foo1", "true", "null"])
        elif here == "type":
            last = "Req" if own != "C" else "CReq"
        elif here == "enum":
            last = "Kind"
        elif here == "package":
            pre, last = [], own
        elif here == "builtin":
            pre, last = [], "Integer"
        elif here == "unknown in pkg":
            pre, last = ["B", "."], "nope"
        elif here == "type in pkg":
            pre, last = ["B", "."], "BReq"
        elif here == "foreign":
            pre, last = [], "only_b"
        if last:
            put(pre, None)
            if pre:
                ws()
            mark(True)
            lit.text += last
        elif here == "unknown pkg":
            mark(True)
            put(["Nope", ".", "obj"], None)
        elif here == "qualifier":
            mark(True)
            put([R.choice(["Req", "Kind", targets[0].split(".")[1]]), ".",
                 "obj"], None)
        elif here == "not imported":
            mark(True)
            put(["C", ".", "only_c"], None)
        elif here == "dots":
            put(toks[:1] if len(toks) == 3 else [own], None)
            lit.text += "."
            mark()
            lit.text += "."
            put(toks[-1:], None)
        elif here == "three":
            put([own, ".", toks[-1]], None)
            ws()
            mark()
            lit.text += ".x"
        elif here == "dot last":
            put([own], None)
            lit.text += "."
            ws()
            mark()
        elif here == "number":
            mark()
            lit.text += R.choice(["1", "_"]) + toks[-1]
        elif here == "string":
            mark()
            lit.text += "'" + toks[-1] + "'"
        elif here == "char":
            put(toks, None)
            mark()
            lit.text += R.choice(["-", ";", "/", "(", "\u00e9", "+", ":"])
            lit.text += "x"
        elif here == "nest":
            put(toks, None)
            ws()
            mark()
            lit.text += "[[" + toks[-1] + "]]"
        elif here == "single":
            put(toks, None)
            mark()
            lit.text += "] "
        elif here == "extends":
            mark()
            lit.text += ""
            put(["if"], None)
        elif here == "comma missing" and i == 0:
            put(toks, None)
            lit.text += " "
            ws()
            mark()
            lit.text += toks[-1]
        else:
            if here == "comma missing":
                mark()
            put(toks, t)
    ws()
    if fault == "comma last":
        lit.text += ","
        ws()
        mark()
    if fault == "unclosed":
        lit.text += R.choice(["", " ", "]"])
        mark()
        return
    lit.text += "]]"


def literal(R, targets, own, fault):
    lit = Lit()
    multi = R.bool(45)
    n = R.weighted((2, 0), (6, 1), (4, 2), (1, 4))
    where = -1
    if fault:
        n = max(n, 1)
        where = R.int(0, n - 1)

    def plain():
        for _ in range(R.weighted((2, 0), (3, 1), (2, 3), (1, 6))):
            t = R.choice(TEXT + (["\n", "\n  ", '"', "''"] if multi else
                                 ["'''", "\\n"]))
            if (lit.text + t)[-3:] in ("'''", '"""') and multi:
                continue
            if lit.text[-1:] == t[:1] and t[:1] in ("[", "]"):
                continue
            lit.text += t
    if multi:
        lit.text += "x"
    for i in range(n):
        plain()
        if lit.text.endswith("["):
            lit.text += " "
        f = fault if i == where else None
        if f == "unopened":
            if lit.text.endswith("]"):
                lit.text += " "
            lit.bad = (len(lit.text), False)
            lit.text += "]]"
        else:
            make_list(R, lit, multi, targets, own, f)
            if f == "unclosed":
                break
        if R.bool(20):
            lit.text += "]"         # a character of its own
            lit.text += " "
    else:
        plain()
    if multi:
        q = R.choice(["'''", '"""'])
        if q in lit.text:
            q = "'''" if '"""' in lit.text else '"""'
        if lit.bad is None or fault != "unclosed":
            lit.text += " "
            lit.text += "y"
        lit.src = q + lit.text + q
        lit.off = 3
        lit.map = list(range(len(lit.text) + 1))
    else:
        lit.src = '"'
        lit.map = []
        for c in lit.text:
            lit.map.append(len(lit.src) - 1)
            lit.src += '\\"' if c == '"' else c
        lit.map.append(len(lit.src) - 1)
        lit.src += '"'
        lit.off = 1
    return lit


def value_of(lit):
    """documented value of the literal"""
    if lit.off == 1:
        return lit.text
    lines = lit.text.strip().split("\n")
    common = None
    for l in lines[1:]:
        if not l.strip():
            continue
        ws = l[:len(l) - len(l.lstrip(" \t"))]
        if common is None:
            common = ws
        k = 0
        while k < min(len(ws), len(common)) and ws[k] == common[k]:
            k += 1
        common = common[:k]
    return "\n".join([lines[0].rstrip()] +
                     [l[len(common or ""):].rstrip() for l in lines[1:]])


WRAP = {"tup": ("(N, ", ")"), "tarr": ("(N, ", ")"),
        "deep": ("(7, (N, ", "))"), "darr": ("((7, (N, ", ")), true)")}


def gen(R):
    names = R.sample(NAMES, R.int(3, 7))
    objs = {"A": [], "B": [], "C": []}
    for n in names:
        objs[R.choice("AAB")].append(n)
    objs["B"].append("only_b")
    objs["C"].append("only_c")
    if not objs["A"]:
        objs["A"].append(names[0] + "x")
    targets = ["A." + n for n in objs["A"]] + ["B." + n for n in objs["B"]]
    fault = R.choice(FAULTS) if R.bool(50) else None

    rsl = ("package A\nimport B\nenum Kind { k1 k2 }\n"
           "tuple Tup { n Integer m Markup_String }\n"
           "tuple Deep { i Integer t Tup }\n"
           "tuple Deeper { d Deep b Boolean }\n"
           "type Req {\n  m optional Markup_String\n"
           "  arr optional Markup_String [0 .. *]\n  tup optional Tup\n"
           "  tarr optional Tup [1 .. 3]\n  s optional String\n"
           "  deep optional Deep\n  darr optional Deeper [1 .. 3]\n"
           "  n optional Integer\n}\n")
    files = {}
    lits = []

    def new(fl):
        lit = literal(R, targets, "A", fl)
        lits.append(lit)
        return lit

    # where are the markup strings?
    slots = []
    for _ in range(R.weighted((2, 1), (3, 2), (3, 3), (1, 6))):
        slots.append(R.weighted((5, "m"), (3, "arr"), (3, "tup"), (2, "tarr"),
                                (2, "deep"), (2, "darr"), (2, "freeze"), (1, "freeze arr")))
    if fault:
        bad = R.int(0, len(slots) - 1)
    expect = {}
    owners = {}
    objects = []
    exts = 0
    marks = []          # (file id, offset in that file's text, lit)
    text = {"rsl": rsl}
    types = {}
    free = list(objs["A"])
    for i, s in enumerate(slots):
        fl = fault if fault and i == bad else None
        k = R.int(1, 3) if "arr" in s else 1
        w = R.int(0, k - 1)
        ls = [new(fl if j == w else None) for j in range(k)]
        nums = [R.int(0, 9) for _ in ls]
        parts = []
        for j, l in enumerate(ls):
            pre, post = WRAP.get(s, ("", ""))
            parts.append((pre.replace("N", str(nums[j])), l, post))
        objects.append((s, parts, nums))
    # objects of the frozen types and others
    extra = []
    for i, (s, parts, nums) in enumerate(objects):
        comp = {"freeze": "m", "freeze arr": "arr"}.get(s, s)
        name = free.pop() if free and not s.startswith("freeze") else \
            "made_%u" % i

        def render(base):
            out = base
            if "arr" in s:
                out += "["
            for j, (a, l, b) in enumerate(parts):
                if j:
                    out += "," + R.choice(["", " ", "\n    "])
                out += a
                yield out, l
                out += l.src + b
            if "arr" in s:
                out += "]"
            yield out, None
        if s.startswith("freeze"):
            t = "rsl"
            base = text[t] + "type Ext_%u extends Req { freeze %s = " % (
                i, comp)
            ty = "Ext_%u" % i
            tail = " }\n"
            extra.append("%s %s {}\n" % (ty, name))
        else:
            t = R.choice(["t1", "t1", "t2"])
            base = text.get(t, "package A\nimport B\n") + \
                "%sReq %s {%s" % ("", name, R.choice([" ", "\n  "]))
            ty = "Req"
            if R.bool(30):
                base += 's = "[[nope]] ]] [[" '
            base += "%s = " % comp
            tail = R.choice([" }\n", "\n}\n"])
        for out, l in render(base):
            if l is not None:
                marks.append((t, len(out), l))
            else:
                text[t] = out + tail
        owners["A." + name] = (comp, [id(p[1]) for p in parts])
        expect["A." + name] = {
            "comp": comp, "nums": nums,
            "vals": [value_of(p[1]) for p in parts],
            "refs": [[r for _, r in p[1].refs] for p in parts],
            "lits": [p[1] for p in parts]}
    for n in free:
        t = R.choice(["t1", "t2", "t3"])
        text[t] = text.get(t, "package A\n") + "Req %s { n = 1 }\n" % n
    for e in extra:
        t = R.choice(["t1", "t3"])
        text[t] = text.get(t, "package A\nimport B\n") + e
    # files
    fname = {"rsl": "a.rsl"}
    for t in ("t1", "t2", "t3"):
        fname[t] = R.choice(["a_%s.trlc", "z_%s.trlc", "s/%s.trlc"]) % t
    for t, x in text.items():
        files[fname[t]] = x
    files["b.rsl"] = "package B\ntype BReq { n optional Integer }\n"
    files["b.trlc"] = "package B\n" + "".join("BReq %s {}\n" % n
                                              for n in objs["B"])
    ctype = "CReq"
    if R.bool(50):
        files["c.rsl"] = "package C\ntype CReq {}\n"
        files["c.trlc"] = "package C\n"
    else:
        # a package that only a trlc file declares
        files["c.trlc"] = "package C\nimport A\n"
        ctype = "A.Req"
    files["c.trlc"] += "".join("%s %s {}\n" % (ctype, n)
                               for n in objs["C"])
    where = None
    for t, off, l in marks:
        if l.bad:
            f = fname[t]
            p = off + l.off + (l.map[min(l.bad[0], len(l.text))])\
                if l.off == 1 else off + 3 + l.bad[0]
            if l.off == 1:
                p = off + 1 + l.map[min(l.bad[0], len(l.text))]
            where = {"file": f, "exact": l.bad[1], "pos": p,
                     "beg": off, "end": off + len(l.src)}
    # where each reference is written
    at = {}
    for t, off, l in marks:
        at[id(l)] = [[fname[t], off + (1 + l.map[k] if l.off == 1 else 3 + k)]
                     for k, _ in l.refs]
    for e in expect.values():
        e["at"] = [at[id(l)] for l in e.pop("lits")]
    order = sorted(files)
    R.shuffle(order)
    return {"files": {n: files[n] for n in order}, "expect": expect,
            "fault": fault, "where": where,
            "nlits": len(lits), "nrefs": sum(len(l.refs) for l in lits)}


def position(text, pos):
    return (text.count("\n", 0, pos) + 1,
            pos - (text.rfind("\n", 0, pos) + 1) + 1)


def check(case):
    files = case["files"]
    res = api.process(files)

    def ctx():
        return "\n%s\n%s\n%s" % (case["fault"], res.text, api.show(files))
    if case["fault"]:
        w = case["where"]
        need(res.stab is None, "accepted%s", ctx())
        errs = res.errors()
        need(errs, "no error%s", ctx())
        t = files[w["file"]]
        pos = position(t, w["pos"])
        for e in errs:
            need(e.file == w["file"] or w["file"].endswith("/" + e.file),
                 "error in another file: %s%s", e.raw, ctx())
            if w["exact"]:
                need((e.line, e.col) == pos, "error at %u:%u expected: %s%s",
                     pos[0], pos[1], e.raw, ctx())
            else:
                # at or after the mistake, inside of the literal
                need(position(t, w["beg"]) <= (e.line, e.col) <=
                     position(t, w["end"]), "error outside of the string: %s"
                     "%s", e.raw, ctx())
                need((e.line, e.col) >= pos or e.msg.find("end-of") >= 0 or
                     case["fault"] in ("unclosed",),
                     "error before the mistake at %u:%u: %s%s",
                     pos[0], pos[1], e.raw, ctx())
        return case["nlits"] >= 2, "fault"
    need(res.ok, "rejected%s", ctx())
    need(not res.msgs, "messages%s", ctx())
    objs = {o.fully_qualified_name(): o for o in res.objects()}
    for fqn, e in case["expect"].items():
        o = objs.get(fqn)
        need(o is not None, "no object %s%s", fqn, ctx())
        v = o.field[e["comp"]]
        vs = v.value if isinstance(v, ast.Array_Aggregate) else [v]
        if e["comp"] in ("deep", "darr"):
            if e["comp"] == "darr":
                need([x.value["b"].value for x in vs] == [True] * len(vs),
                     "Booleans of %s%s", fqn, ctx())
                vs = [x.value["d"] for x in vs]
            vs = [x.value["t"] for x in vs]
        if e["comp"] in WRAP:
            need([x.value["n"].value for x in vs] == e["nums"],
                 "numbers of %s%s", fqn, ctx())
            vs = [x.value["m"] for x in vs]
        need([x.value for x in vs] == e["vals"], "%s has the text %r, "
             "expected %r%s", fqn, [x.value for x in vs], e["vals"], ctx())
        for x, refs, at in zip(vs, e["refs"], e["at"]):
            need(x.has_references, "no references in %s%s", fqn, ctx())
            got = [r.target.fully_qualified_name() if r.target else None
                   for r in x.references]
            need(got == refs, "references of %s are %s, expected %s%s", fqn,
                 got, refs, ctx())
            for r, (f, k) in zip(x.references, at):
                loc = r.location
                need((loc.file_name, loc.line_no, loc.col_no) ==
                     (f, ) + position(files[f], k) and loc.start_pos == k and
                     loc.text() == r.name, "reference to %s is located at "
                     "%s:%s:%s (%r), expected %s:%u:%u%s", r.name,
                     loc.file_name, loc.line_no, loc.col_no, loc.text(), f,
                     *position(files[f], k), ctx())
                need(r.target is objs[r.target.fully_qualified_name()],
                     "reference to another object%s", ctx())
                need(r.package is r.target.n_package and
                     r.name == r.target.name and
                     r.typ is r.target.n_typ,
                     "package, name or type of reference %s%s", r.name, ctx())
        s = o.field.get("s")
        if isinstance(s, ast.String_Literal):
            need(not s.has_references and not s.references,
                 "references in a String%s", ctx())
    return (case["nlits"] >= 2 and case["nrefs"] >= 3, "valid")
