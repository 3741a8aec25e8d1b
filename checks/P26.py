"""P26: the Python API describes the declarations and objects of a program."""
from vlib import api, prog, reflex, values
from vlib.api import need, ast
from vlib.prog import Arr, Uni
from trlc.errors import TRLC_Error

ID = "P26"
BUILTINS = {"Integer", "Decimal", "Boolean", "String", "Markup_String", "len",
            "startswith", "endswith", "matches", "oneof"}
RULE = ("at least 3 types, one of them an extension, tuple or enumeration,"
        " and at least one record object")
QUICK = 16000
THOROUGH = 500000


def ty_desc(ty):
    if isinstance(ty, str):
        return ty
    if isinstance(ty, Arr):
        return ["array", ty_desc(ty.elem), ty.lo, ty.hi]
    if isinstance(ty, Uni):
        return ["union"] + [ty_desc(m) for m in ty.members]
    return ty.pkg.name + "." + ty.name


class Tok:
    def __init__(self, text, t):
        self.kind, self.value, self.start, end = t[:4]
        self.text = text[self.start:end]


def tokens(text):
    return [Tok(text, t) for t in reflex.lex(text)[0] if t[0] != "COMMENT"]


def after(toks, pos):
    """index of the token at an offset"""
    for i, t in enumerate(toks):
        if t.start == pos:
            return i
    raise KeyError(pos)


def gen(R):
    w = prog.build(R, extra={"markcomps": True})
    blocks = {}
    count = {}
    for p in w.pkgs:
        for t in p.types:
            if t.k == "enum" or R.bool(60):
                continue
            n = R.int(1, 3)
            count[(p.name, t.name)] = n
            cut = R.int(0, n)

            def blk(wr, t=t, lo=0, hi=n):
                if lo == hi:
                    return
                wr.t("checks", t.name, "{")
                for i in range(lo, hi):
                    wr.t("1", "==", "1", ",",
                         R.choice(["error", "warning", "fatal"]),
                         '"%s %u"' % (t.name, i), "\n")
                wr.t("}")
                wr.nl()
            import functools
            blocks[t] = [functools.partial(blk, lo=0, hi=cut),
                         functools.partial(blk, lo=cut, hi=n)]
    w.opts.extra["blocks"] = blocks
    files = prog.render(w, fancy=R.bool(60))
    lexed = {n: tokens(t) for n, t in files.items()}

    def named(mark):
        """location and description of the name at a mark"""
        f, start, _ = mark
        toks = lexed[f]
        i = after(toks, start)
        d = None
        if i + 1 < len(toks) and toks[i + 1].kind == "STRING":
            d = toks[i + 1].value
        return [f, start, d]

    types = {}
    for p in w.pkgs:
        for t in p.types:
            m = w.marks[("type", p.name, t.name)]
            e = {"k": t.k, "at": named(m),
                 "checks": ["%s %u" % (t.name, i) for i in
                            range(count.get((p.name, t.name), 0))]}
            if t.k == "enum":
                toks = lexed[m[0]]
                i = after(toks, m[1])
                while toks[i].text != "{":
                    i += 1
                lits = []
                for j in range(i + 1, len(toks)):
                    if toks[j].text == "}":
                        break
                    if toks[j].kind != "STRING":
                        lits.append([toks[j].text,
                                     named([m[0], toks[j].start, 0])])
                assert [x[0] for x in lits] == t.lits
                e["lits"] = lits
            else:
                comps = t.comps() if t.k == "record" else t.comps
                e["comps"] = [
                    [c.name, named(w.marks[("comp", c.owner.pkg.name,
                                            c.owner.name, c.name)]),
                     bool(c.opt), ty_desc(c.ty),
                     c.owner.pkg.name + "." + c.owner.name]
                    for c in comps]
            if t.k == "tuple":
                e["seps"] = t.seps
            if t.k == "record":
                e["parent"] = t.parent.fq() if t.parent else None
                e["abstract"] = t.abstract
                e["final"] = t.is_final()
                e["chain"] = [x.fq() for x in t.chain()]
                e["frozen"] = {n: prog.meaning(v)
                               for n, v in t.frozen().items()}
            types[p.name + "." + t.name] = e
    objs = {}
    for o in w.objs:
        objs[o.fq()] = {
            "at": w.marks[("obj", o.fq())][:2], "type": o.typ.fq(),
            "section": o.section,
            "vals": {n: w.marks[("val", o.fq(), n)] for n in o.vals
                     if ("val", o.fq(), n) in w.marks},
            "kinds": {n: v.kind for n, v in o.vals.items()}}
    deep = {}
    for k, v in w.marks.items():
        if k[0] == "val" and len(k) > 3:
            deep[".".join(str(x) for x in k[1:])] = v
    damage = None
    if R.bool(40):
        f = R.choice(sorted(files))
        damage = [f, R.int(0, len(files[f]))]
    return {"damage": damage, "lint": R.bool(50), "recovery": R.bool(70),
            "trlc": R.bool(80), "files": files, "types": types, "objs": objs,
            "expect": w.expected(), "deep": deep,
            "pkgs": [p.name for p in w.pkgs]}


def position(text, pos):
    return (text.count("\n", 0, pos) + 1,
            pos - (text.rfind("\n", 0, pos) + 1) + 1)


def fq(t):
    return t.n_package.name + "." + t.name


def got_type(t):
    if isinstance(t, ast.Array_Type):
        return ["array", got_type(t.element_type), t.lower_bound,
                t.upper_bound]
    if isinstance(t, ast.Union_Type):
        return ["union"] + [got_type(x) for x in t.types]
    if isinstance(t, ast.Builtin_Type):
        return t.name
    return fq(t)


def progress(case):
    """the notifications of a source manager (for progress bars)"""
    calls = []

    class Manager(api.Source_Manager):
        def callback_parse_begin(self):
            calls.append("begin")

        def callback_parse_progress(self, progress):
            calls.append(progress)

        def callback_parse_end(self):
            calls.append("end")

    files = dict(case["files"])
    if case["damage"]:
        f, n = case["damage"]
        files[f] = files[f][:n]
    res = api.process(files, manager=Manager, lint=case["lint"],
                      recovery=case["recovery"], trlc=case["trlc"])

    def ctx():
        return "\n%s\n%s\n%s" % (calls, res.text, api.show(files))
    need(calls[:1] == ["begin"] and calls[-1:] == ["end"] and
         calls.count("begin") == 1 and calls.count("end") == 1,
         "notifications of begin and end%s", ctx())
    steps = calls[1:-1]
    need(all(isinstance(x, int) and 0 <= x <= 100 for x in steps) and
         steps == sorted(steps), "progress%s", ctx())
    need(len(steps) <= len(files), "number of notifications%s", ctx())
    if res.ok and case["trlc"]:
        need(len(steps) == len(files) and steps[-1] == 100,
             "no progress for each file%s", ctx())
    if not case["trlc"] and not case["damage"]:
        need(res.ok, "rejected%s", ctx())
        need(not list(res.stab.iter_record_objects()), "objects%s", ctx())
        got = sorted(fq(t) for p in res.stab.values(ast.Package)
                     for t in p.symbols.values(ast.Concrete_Type))
        need(got == sorted(case["types"]), "types %s%s", got, ctx())


def variants(name):
    """similar names, which denote nothing"""
    return [v for v in (name.upper(), name.lower(), name.swapcase(),
                        name + "_", name.replace("_", ""),
                        name[:1] + "_" + name[1:], name[:-1], name + name)
            if v and v != name]


def lookups(mh, ctx, what, stab, names, builtin=()):
    """a symbol table contains exactly these names"""
    need(stab.all_names() == set(names) | set(builtin),
         "names of %s are %s, expected %s%s", what, sorted(stab.all_names()),
         sorted(names), ctx())
    for n in names:
        need(n in stab and stab.contains(n) and
             stab.lookup_assuming(mh, n).name == n, "lookup of %s in %s%s",
             n, what, ctx())
        for v in variants(n):
            if v in names or v in BUILTINS:
                continue
            need(v not in stab and not stab.contains(v), "%s contains %s%s",
                 what, v, ctx())
            need(stab.lookup_assuming(mh, v) is None, "lookup of %s in %s%s",
                 v, what, ctx())


def wrong_kind(mh, ctx, stab, name, kind):
    """looking up something of another class than required is an error"""
    try:
        got = stab.lookup_assuming(mh, name, kind)
    except TRLC_Error:
        return
    need(False, "lookup of %s as %s gives %s%s", name, kind.__name__, got,
         ctx())


def check(case):
    progress(case)
    files = case["files"]
    res = api.process(files)

    def ctx():
        return "\n%s\n%s" % (res.text, api.show(files))
    need(res.ok, "rejected%s", ctx())
    stab = res.stab

    def same(what, got, want):
        need(values.same(got, want), "%s is %r, expected %r%s", what, got,
             want, ctx())

    def located(what, loc, f, pos):
        need(loc.file_name == f and
             (loc.line_no, loc.col_no) == position(files[f], pos),
             "%s is located at %s:%s:%s, expected %s:%u:%u%s", what,
             loc.file_name, loc.line_no, loc.col_no, f,
             *position(files[f], pos), ctx())
        need(files[f][loc.start_pos:loc.end_pos + 1] and
             loc.start_pos == pos, "offset of %s%s", what, ctx())

    mh = res.mh
    pkgs = {p.name: p for p in stab.values(ast.Package)}
    same("packages", sorted(pkgs), sorted(set(case["pkgs"])))
    found = {}
    objs = {}
    for n, p in pkgs.items():
        need(stab.lookup_assuming(mh, n, ast.Package) is p, "lookup of %s%s",
             n, ctx())
        need(stab.contains(n) and n in stab, "contains(%s)%s", n, ctx())
        names = []
        for s in p.symbols.values():
            names.append(s.name)
            if isinstance(s, ast.Record_Object):
                objs[s.fully_qualified_name()] = s
            else:
                found[fq(s)] = s
            need(s.n_package is p, "package of %s%s", s.name, ctx())
            need(p.symbols.lookup_assuming(mh, s.name) is s, "lookup of %s%s",
                 s.name, ctx())
            need(s.name in p.symbols and p.symbols.contains(s.name),
                 "contains(%s)%s", s.name, ctx())
        need(len(set(names)) == len(names), "names %s%s", names, ctx())
        lookups(mh, ctx, "package " + n, p.symbols, names)
        for s in p.symbols.values():
            kinds = [k for k in (ast.Record_Object, ast.Record_Type,
                                 ast.Tuple_Type, ast.Enumeration_Type,
                                 ast.Package) if not isinstance(s, k)]
            wrong_kind(mh, ctx, p.symbols, s.name, kinds[len(names) % 4])
    same("types", sorted(found), sorted(case["types"]))
    same("objects", sorted(objs), sorted(case["objs"]))
    order = [o.fully_qualified_name() for o in stab.iter_record_objects()]
    same("iteration over objects", sorted(order), sorted(objs))

    for n, e in case["types"].items():
        t = found[n]
        same("kind of " + n, type(t).__name__,
             {"enum": "Enumeration_Type", "tuple": "Tuple_Type",
              "record": "Record_Type"}[e["k"]])
        located(n, t.location, e["at"][0], e["at"][1])
        same("description of " + n, t.description, e["at"][2])
        same("full name", t.fully_qualified_name(), n)
        if e["k"] == "enum":
            lits = list(t.literals.table.values())
            same("literals of " + n, [l.name for l in lits],
                 [l[0] for l in e["lits"]])
            lookups(mh, ctx, n, t.literals, [l[0] for l in e["lits"]])
            for l, (name, (f, pos, d)) in zip(lits, e["lits"]):
                located(n + "." + name, l.location, f, pos)
                same("description of %s.%s" % (n, name), l.description, d)
                need(l.n_typ is t, "type of literal%s", ctx())
            continue
        comps = t.all_components()
        lookups(mh, ctx, n, t.components, [c[0] for c in e["comps"]])
        same("components of " + n, [c.name for c in comps],
             [c[0] for c in e["comps"]])
        for c, (name, (f, pos, d), opt, ty, owner) in zip(comps, e["comps"]):
            what = n + "." + name
            located(what, c.location, f, pos)
            same("description of " + what, c.description, d)
            same("optional of " + what, c.optional, opt)
            same("type of " + what, got_type(c.n_typ), ty)
            need(c.member_of is found[owner], "owner of %s%s", what, ctx())
            need(t.components.lookup_assuming(mh, name) is c,
                 "lookup of %s%s", what, ctx())
        own = [c.error_message if hasattr(c, "error_message") else c.message
               for c in t.checks]
        same("checks of " + n, own, e["checks"])
        for c in t.checks:
            need(c.n_type is t, "type of check%s", ctx())
        chain = e.get("chain", [n])
        same("all checks of " + n,
             [getattr(c, "error_message", None) or c.message
              for c in t.iter_checks()],
             [m for x in chain for m in case["types"][x]["checks"]])
        if e["k"] == "tuple":
            same("has_separators", t.has_separators(), bool(e["seps"]))
            same("separators of " + n,
                 [s.to_string() for s in t.iter_separators()],
                 e["seps"] or [])
            seq = []
            for i, c in enumerate(e["comps"]):
                if i and e["seps"]:
                    seq.append(e["seps"][i - 1])
                seq.append(c[0])
            same("sequence of " + n,
                 [x.name if isinstance(x, ast.Composite_Component) else
                  x.to_string() for x in t.iter_sequence()], seq)
        else:
            same("parent of " + n, fq(t.parent) if t.parent else None,
                 e["parent"])
            if t.parent:
                need(t.parent is found[e["parent"]], "parent%s", ctx())
            same("abstract " + n, t.is_abstract, e["abstract"])
            same("final " + n, t.is_final, e["final"])
            for m, x in case["types"].items():
                if x["k"] == "record":
                    same("%s subclass of %s" % (n, m),
                         t.is_subclass_of(found[m]), m in e["chain"])
            for c in comps:
                same("is_frozen %s.%s" % (n, c.name), t.is_frozen(c),
                     c.name in e["frozen"])
                if c.name in e["frozen"]:
                    v = t.get_freezing_expression(c)
                    if "$ref" not in str(e["frozen"][c.name]):
                        same("frozen value", values.actual(v),
                             e["frozen"][c.name])
    sections = {}
    for n, e in case["objs"].items():
        o = objs[n]
        located(n, o.location, *e["at"])
        need(o.n_typ is found[e["type"]], "type of %s%s", n, ctx())
        same("full name", o.fully_qualified_name(), n)
        same("fields of " + n, list(o.field),
             [c[0] for c in case["types"][e["type"]]["comps"]])
        comps = {c.name: c for c in o.n_typ.all_components()}
        frozen = case["types"][e["type"]]["frozen"]
        for c, v in o.field.items():
            same("is_component_implicit_null %s.%s" % (n, c),
                 o.is_component_implicit_null(comps[c]),
                 isinstance(v, ast.Implicit_Null))
            if isinstance(v, ast.Implicit_Null):
                need(c not in e["vals"], "%s.%s is null%s", n, c, ctx())
                continue
            loc = v.location
            need(v.typ is not None and
                 compatible(v, comps[c].n_typ), "type of value %s.%s%s", n, c,
                 ctx())
            if c in e["vals"]:
                place(case, files, ctx, n + "." + c, v, e["vals"][c])
        sec = o.section or []
        same("section of " + n, [s.name for s in sec], e["section"])
        for i, s in enumerate(sec):
            need(s.parent is (sec[i - 1] if i else None),
                 "parent of section %r of %s%s", s.name, n, ctx())
            f = e["at"][0]
            pos = s.location.start_pos
            need(s.location.file_name == f and
                 files[f][pos:].startswith(("section", '"', "'")),
                 "location of section%s", ctx())
    by_section(case, stab, ctx)
    return (len(case["types"]) >= 3 and bool(objs) and
            any(e["k"] != "record" or e["parent"]
                for e in case["types"].values()),
            "objects" if objs else "types")


def compatible(v, ty):
    if isinstance(ty, (ast.Union_Type, ast.Record_Type)):
        # either the declared type or that of the object
        return v.typ is ty or v.typ is v.target.n_typ
    return v.typ is ty or (isinstance(ty, ast.Builtin_Type) and
                           v.typ.name == ty.name) or \
        isinstance(ty, ast.Array_Type)


def place(case, files, ctx, key, v, mark):
    """the location of a value is that of its first token (of the name, for
    references and enumeration literals)"""
    f, beg, end = mark
    loc = v.location
    need(loc.file_name == f and beg <= loc.start_pos < end,
         "value %s is located at %s:%s (offset %s), expected within %u..%u%s",
         key, loc.file_name, loc.line_no, loc.start_pos, beg, end, ctx())
    need((loc.line_no, loc.col_no) == position(files[f], loc.start_pos),
         "line and column of %s%s", key, ctx())
    if isinstance(v, (ast.Literal, ast.Array_Aggregate,
                      ast.Unary_Expression)) and \
            not isinstance(v, ast.Enumeration_Literal):
        need(loc.start_pos == beg, "%s starts at offset %u, expected %u%s",
             key, loc.start_pos, beg, ctx())
    if isinstance(v, ast.Array_Aggregate):
        for i, x in enumerate(v.value):
            m = case["deep"].get("%s.%u" % (key, i))
            if m:
                place(case, files, ctx, "%s.%u" % (key, i), x, m)
    elif isinstance(v, ast.Tuple_Aggregate):
        for n, x in v.value.items():
            m = case["deep"].get("%s.%s" % (key, n))
            if m and not isinstance(x, ast.Implicit_Null):
                place(case, files, ctx, "%s.%s" % (key, n), x, m)


def by_section(case, stab, ctx):
    """model of iter_record_objects_by_section"""
    want = []
    seen = []
    done = []
    for o in stab.iter_record_objects():
        f = o.location.file_name
        if f not in seen:
            seen.append(f)
            want.append(f)
        for i, s in enumerate(o.section or []):
            if all(s is not x for x in done):
                done.append(s)
                want.append((s.name, i))
        want.append((o, max(len(o.section or []) - 1, 0)))
    for turn in ("first", "second"):
        got = list(stab.iter_record_objects_by_section())
        need(got == want, "%s iteration by section gives\n%s, expected\n%s"
             "%s", turn, got, want, ctx())
