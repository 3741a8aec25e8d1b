"""P05: packages, imports and name resolution across files."""
from vlib import api
from vlib.api import ast, need
from vlib.core import Reject

ID = "P05"
RULE = ("at least two packages, three files and one use of a name from"
        " another package; rejected programs have exactly one rule"
        " violation")
QUICK = 30000
THOROUGH = 1000000

PKGS = ["Alpha", "Beta", "Gam_ma", "Delta", "Eps"]
ALIKE = {"Alpha": "Al_pha", "Beta": "BETA", "Gam_ma": "Gamma",
         "Delta": "delta", "Eps": "E_ps"}
TYPES = ["T", "U", "Req", "Item_A", "Kind"]
T_ALIKE = {"T": "t", "U": "u", "Req": "REQ", "Item_A": "ItemA",
           "Kind": "kind"}
OBJS = ["obj", "a1", "b_2", "thing", "xx"]
O_ALIKE = {"obj": "OBJ", "a1": "a_1", "b_2": "b2", "thing": "Thing",
           "xx": "x_x"}
COMPS = ["p", "q", "r", "mk"]


def simple(n):
    return n.replace("_", "").lower()


class Type:
    def __init__(self, pkg, name, kind, line):
        self.pkg, self.name, self.kind, self.line = pkg, name, kind, line
        self.parent = None
        self.comps = []         # (name, Type or None for Integer)

    def fq(self):
        return self.pkg + "." + self.name

    def all(self):
        return (self.parent.all() if self.parent else []) + self.comps

    def is_a(self, o):
        return self is o or (self.parent is not None and
                             self.parent.is_a(o))


class File:
    def __init__(self, name, pkg):
        self.name, self.pkg = name, pkg
        self.lines = ["package " + pkg]
        self.imports = []

    def add(self, text):
        self.lines.append(text)
        return len(self.lines)


class Gen:
    def __init__(self, R):
        self.R = R
        self.noise = R.weighted((3, 0), (5, 6), (2, 12))
        self.faults = []        # list of sets of (file, line)
        self.warnings = []
        self.files = []
        self.foreign = 0
        self.types = {}         # package -> [Type]
        self.objs = {}          # package -> {name: (Type, file, line)}
        self.run()

    def odd(self):
        return self.noise and self.R.bool(self.noise)

    def fault(self, *where):
        self.faults.append(sorted(set(where)))

    # -- names ---------------------------------------------------------------

    def path(self, f, types_of, target):
        """write a reference to a type or object with the given package and
        name, as (package or None, name)"""
        R = self.R
        pkg, name = target
        if self.odd():
            k = R.int(0, 5)
            if k == 0:
                return (None, name)
            if k == 1:
                return (R.choice(PKGS), name)
            if k == 2:
                return (pkg, types_of(name))
            if k == 3:
                return (ALIKE[pkg], name)
            if k == 4:
                return (pkg, "Nope")
            return (R.choice([None] + PKGS), R.choice(TYPES + OBJS))
        if pkg == f.pkg and R.bool(80):
            return (None, name)
        return (pkg, name)

    def visible(self, f, pkg):
        """is the package name usable in this file"""
        return pkg == f.pkg or (pkg in f.imports and pkg in self.known(f))

    def known(self, f):
        if f.name.endswith(".rsl"):
            return self.declared
        return self.declared | self.late

    def find_type(self, f, path, upto=None):
        pkg, name = path
        if pkg is None:
            pkg = f.pkg
        elif not self.visible(f, pkg):
            return None
        if pkg != f.pkg:
            self.foreign += 1
        for t in self.types.get(pkg, []):
            if t.name == name:
                return t
        return None

    def show(self, path):
        return path[1] if path[0] is None else path[0] + "." + path[1]

    # -- generation ----------------------------------------------------------

    def run(self):
        R = self.R
        names = R.sample(PKGS, R.weighted((2, 1), (5, 2), (5, 3), (3, 4), (2, 5)))
        late = [n for n in names[1:] if R.bool(20)]
        rsl_pkgs = [n for n in names if n not in late]
        self.declared = set(rsl_pkgs)
        self.late = set(late)
        stems = R.sample(["a", "b", "c", "d", "e", "f", "g", "h", "i", "j",
                          "k", "l", "m", "n", "o", "p"], 16)
        # rsl files; imports first since packages are processed in order of
        # their dependencies
        rsl = []
        for i, n in enumerate(rsl_pkgs):
            f = File(stems.pop() + ".rsl", n)
            self.import_list(f, rsl_pkgs[:i], rsl_pkgs)
            rsl.append(f)
        extra = []
        if self.odd():
            # second file for a package, or one with a similar name
            n = R.choice(rsl_pkgs)
            if R.bool():
                extra.append(File(stems.pop() + ".rsl", n))
            else:
                extra.append(File(stems.pop() + ".rsl", ALIKE[n]))
            e = extra[0]
            same = [f for f in rsl if simple(f.pkg) == simple(e.pkg)]
            self.fault((e.name, 1), *[(f.name, 1) for f in same])
        self.files += rsl + extra
        # cycles
        graph = {f.pkg: set(f.imports) & self.declared for f in rsl}
        order, done = [], set()
        while True:
            c = [f for f in rsl if f.pkg not in done and
                 graph[f.pkg] <= done]
            if not c:
                break
            order.append(c[0])
            done.add(c[0].pkg)
        stuck = [f for f in rsl if f.pkg not in done]
        if stuck:
            self.fault(*[(f.name, 1) for f in stuck])
        for f in order + stuck:
            self.gen_types(f)
        # trlc files
        trlc = []
        for n in names:
            for _ in range(R.int(0 if n in rsl_pkgs else 1, 2)):
                f = File(stems.pop() + ".trlc", n)
                self.import_list(f, names, names)
                trlc.append(f)
        if self.odd() and len(stems) > 0:
            n = R.choice(names)
            f = File(stems.pop() + ".trlc", ALIKE[n])
            self.fault((f.name, 1),
                       *[(g.name, 1) for g in trlc if g.pkg == n])
            if n in rsl_pkgs:
                self.faults[-1] = [(f.name, 1)]
            trlc.append(f)
            f.broken = True
        self.files += trlc
        todo = []
        for f in trlc:
            if hasattr(f, "broken"):
                continue
            for _ in range(R.int(0, 3)):
                todo.append(self.gen_object(f))
        for t in todo:
            if t:
                self.fill(*t)

    def import_list(self, f, good, any_):
        R = self.R
        names = [n for n in good if n != f.pkg and R.bool(70)]
        if self.odd():
            names.append(R.choice(any_ + PKGS + [f.pkg, "Nope", "Integer"] +
                                  [ALIKE[R.choice(PKGS)]]))
        if R.bool(5) and names:
            names.append(R.choice(names))
        for n in R.shuffle(names):
            line = f.add("import " + n)
            if n == f.pkg:
                self.fault((f.name, line))
                # nothing after this in the preamble is looked at
                f.dead = True
            elif n in f.imports:
                self.warnings.append((f.name, line))
            else:
                f.imports.append(n)
                if n not in self.known(f):
                    self.fault((f.name, line))

    def new_name(self, f, pool, alike, taken):
        R = self.R
        free = [n for n in pool if simple(n) not in taken]
        if self.odd():
            k = R.int(0, 3)
            if k == 0:
                return R.choice(pool)
            if k == 1:
                return alike[R.choice(pool)]
            if k == 2:
                return R.choice([f.pkg] + f.imports)
            return R.choice(["Integer", "string", "Markup_String"])
        if not free:
            return None
        return R.choice(free)

    def gen_types(self, f):
        R = self.R
        taken = {}
        for n in list(self.declared | self.late) + \
                ["Boolean", "Integer", "Decimal", "String", "Markup_String"]:
            taken[simple(n)] = None
        mine = self.types.setdefault(f.pkg, [])
        for _ in range(R.int(1, 3)):
            name = self.new_name(f, TYPES, T_ALIKE, taken)
            if name is None:
                continue
            if simple(name) in [simple(n) for n in self.declared | self.late
                                if n not in f.imports and n != f.pkg]:
                raise Reject()
            kind = R.weighted((5, "type"), (1, "enum"))
            line = len(f.lines) + 1
            t = Type(f.pkg, name, kind, line)
            bad = simple(name) in taken
            text = [kind, name]
            if kind == "enum":
                text += ["{", "one", "two", "}"]
            else:
                recs = [x for p in [f.pkg] + f.imports
                        for x in self.types.get(p, []) if x.kind == "type"]
                anyt = [x for p in [f.pkg] + f.imports
                        for x in self.types.get(p, [])]
                if recs and R.bool(45):
                    x = R.choice(recs)
                    path = self.path(f, T_ALIKE.get, (x.pkg, x.name))
                    if path[1] is None:
                        raise Reject()
                    text += ["extends", self.show(path)]
                    r = self.find_type(f, path)
                    if r is None or r.kind != "type":
                        bad = True
                    else:
                        t.parent = r
                text.append("{")
                have = [c for c, _ in t.all()]
                for c in COMPS:
                    if c in have or R.bool(50):
                        continue
                    if not anyt or R.bool(20):
                        text += [c, "Integer"]
                        t.comps.append((c, None))
                        continue
                    if R.bool(15):
                        text += [c, "optional Markup_String"]
                        t.comps.append((c, "Markup_String"))
                        continue
                    if recs and R.bool(15):
                        members = self.union(f, c, recs, text)
                        if members is None:
                            bad = True
                        else:
                            t.comps.append((c, members))
                        continue
                    x = R.choice(anyt)
                    path = self.path(f, T_ALIKE.get, (x.pkg, x.name))
                    if path[1] is None:
                        raise Reject()
                    text += [c, "optional", self.show(path)]
                    r = self.find_type(f, path)
                    if r is None:
                        # a reference to the type itself is fine
                        if path[1] == name and path[0] in (None, f.pkg) and \
                           not bad:
                            t.comps.append((c, t))
                        else:
                            bad = True
                    else:
                        t.comps.append((c, r))
                text.append("}")
            f.add(" ".join(text))
            if bad:
                # the rest of the file may not be read
                self.fault((f.name, line))
                prev = taken.get(simple(name))
                del prev
                if simple(name) not in taken:
                    taken[simple(name)] = t
            else:
                taken[simple(name)] = t
                mine.append(t)
                if kind == "type" and R.bool(25):
                    self.gen_check(f, t)

    def union(self, f, comp, recs, text):
        """component with a union of record types; None if that is wrong"""
        R = self.R
        members = []
        ok = True
        shown = []
        for x in R.sample(recs, R.int(1, min(3, len(recs)))):
            path = self.path(f, T_ALIKE.get, (x.pkg, x.name))
            if path[1] is None:
                raise Reject()
            shown.append(self.show(path))
            r = self.find_type(f, path)
            if r in members:
                # known finding of P02
                raise Reject()
            if r is None or r.kind != "type":
                # (might be the type which is just being declared)
                if r is None and path[0] in (None, f.pkg):
                    raise Reject()
                ok = False
            members.append(r)
        text += [comp, "optional", "[%s]" % ", ".join(shown)]
        return members if ok else None

    def gen_check(self, f, t):
        """check that is always true and mentions an enumeration"""
        R = self.R
        enums = [x for p in [f.pkg] + f.imports
                 for x in self.types.get(p, []) if x.kind == "enum"]
        if not enums:
            return
        sides = []
        hits = []
        for x in [R.choice(enums)] * 2:
            path = self.path(f, T_ALIKE.get, (x.pkg, x.name))
            if path[1] is None:
                raise Reject()
            sides.append(self.show(path) + ".one")
            hits.append(self.find_type(f, path))
        line = f.add("checks %s { %s == %s, \"m\" }" % (t.name, *sides))
        if hits[0] is None or hits[0].kind != "enum" or hits[0] is not hits[1]:
            self.fault((f.name, line))

    def gen_object(self, f):
        R = self.R
        mine = self.objs.setdefault(f.pkg, {})
        taken = {simple(n) for n in mine} | \
            {simple(t.name) for t in self.types.get(f.pkg, [])} | \
            {simple(n) for n in self.declared | self.late} | \
            {simple(n) for n in ["Boolean", "Integer", "Decimal", "String",
                                 "Markup_String"]}
        recs = [x for p in [f.pkg] + f.imports
                for x in self.types.get(p, []) if x.kind == "type"]
        if not recs:
            return None
        name = self.new_name(f, OBJS, O_ALIKE, taken)
        if name is None:
            return None
        if simple(name) in [simple(n) for n in self.declared | self.late
                            if n not in f.imports and n != f.pkg]:
            raise Reject()
        x = R.choice(recs)
        path = self.path(f, T_ALIKE.get, (x.pkg, x.name))
        if path[1] is None:
            raise Reject()
        r = self.find_type(f, path)
        line = f.add(None)
        bad = []
        if r is None or r.kind != "type":
            bad = [(f.name, line)]
            r = x
        elif simple(name) in taken:
            # either of the two may be the one reported
            bad = [(f.name, line)] + [
                (g.name, n) for m, (_, g, n) in mine.items()
                if simple(m) == simple(name)]
        if bad:
            self.fault(*bad)
        elif name not in mine:
            mine[name] = (r, f, line)
        return f, line, name, path, r, bool(bad)

    def fill(self, f, line, name, path, typ, bad):
        R = self.R
        text = [self.show(path), name, "{"]
        vals = {}
        wrong = False
        for c, ct in typ.all():
            if ct is None:
                text += [c, "= 1"]
                vals[c] = 1
                continue
            vals[c] = None
            if R.bool(25):
                continue
            if ct == "Markup_String":
                refs = []
                content = ""
                for _ in range(R.int(1, 3)):
                    cands = [(p, n) for p in self.objs
                             for n in sorted(self.objs[p])
                             if self.visible(f, p) or self.odd()]
                    if not cands:
                        continue
                    p = self.path(f, O_ALIKE.get, R.choice(cands))
                    if p[1] is None:
                        raise Reject()
                    pkg = f.pkg if p[0] is None else p[0]
                    if not self.visible(f, pkg) or \
                       p[1] not in self.objs.get(pkg, {}):
                        wrong = True
                    elif pkg != f.pkg:
                        self.foreign += 1
                    if content.endswith("]]") and R.bool():
                        content = content[:-2] + ", %s]]" % self.show(p)
                    else:
                        content += " see [[%s]]" % self.show(p)
                    refs.append(pkg + "." + p[1])
                text += [c, "= \"%s\"" % content]
                vals[c] = {"$refs": refs}
                continue
            members = ct if isinstance(ct, list) else [ct]
            if members[0].kind == "enum":
                if not self.visible(f, ct.pkg) and not self.odd():
                    continue
                p = self.path(f, T_ALIKE.get, (ct.pkg, ct.name))
                if p[1] is None:
                    raise Reject()
                lit = R.choice(["one", "two"])
                text += [c, "=", self.show(p) + "." + lit]
                if self.find_type(f, p) is not ct:
                    wrong = True
                vals[c] = {"$enum": lit}
                continue
            cands = [(p, n) for p in self.objs for n, (t, _, _) in
                     sorted(self.objs[p].items())
                     if any(t.is_a(x) for x in members) and
                     self.visible(f, p)]
            if self.odd():
                near = [(p, n) for p in self.objs for n, (t, _, _) in
                        sorted(self.objs[p].items())
                        if any(t.is_a(x) for x in members) and
                        not self.visible(f, p)]
                if near and R.bool():
                    # only the import is missing
                    cands = near
                else:
                    cands = [(p, n) for p in self.objs
                             for n in sorted(self.objs[p])]
            if not cands:
                continue
            p = self.path(f, O_ALIKE.get, R.choice(cands))
            if p[1] is None:
                raise Reject()
            text += [c, "=", self.show(p)]
            pkg = f.pkg if p[0] is None else p[0]
            hit = self.objs.get(pkg, {}).get(p[1])
            if not self.visible(f, pkg) or hit is None or \
               not any(hit[0].is_a(x) for x in members):
                wrong = True
            else:
                if pkg != f.pkg:
                    self.foreign += 1
                vals[c] = {"$ref": pkg + "." + p[1]}
        text.append("}")
        f.lines[line - 1] = " ".join(text)
        if wrong and not bad:
            self.fault((f.name, line))
        f.vals = getattr(f, "vals", {})
        f.vals[name] = (typ.fq(), vals)


def type_name(x):
    if x is None:
        return "Integer"
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return [y.fq() for y in x]
    return x.fq()


def gen(R):
    g = Gen(R)
    files = {f.name: "\n".join(f.lines) + "\n" for f in g.files}
    types = {}
    for ts in g.types.values():
        for t in ts:
            types[t.fq()] = [t.kind, t.parent.fq() if t.parent else None,
                             [[c, type_name(x)] for c, x in t.all()]]
    objs = {}
    for f in g.files:
        for n, (typ, vals) in getattr(f, "vals", {}).items():
            objs[f.pkg + "." + n] = [typ, vals]
    return {"files": files, "faults": g.faults, "warnings": g.warnings,
            "types": types, "objs": objs, "late": sorted(g.late),
            "declared": sorted(g.declared),
            "big": len(files) >= 3 and len(g.declared | g.late) >= 2 and
            g.foreign > 0}


def check(case):
    files = case["files"]
    res = api.process(files)
    errs = res.errors()
    if case["faults"]:
        need(errs and res.stab is None, "accepted, expected error at %s\n%s",
             case["faults"], api.show(files))
        if len(case["faults"]) == 1:
            where = [tuple(x) for x in case["faults"][0]]
            need(any((m.file, m.line or 1) in where for m in errs),
                 "no error at %s\n%s\n%s", where, res.text, api.show(files))
            return case["big"], "one fault"
        return False, "faults"
    need(res.ok, "rejected: %s\n%s", res.text, api.show(files))
    got = sorted((m.file, m.line) for m in res.msgs)
    need(got == sorted(tuple(x) for x in case["warnings"]) and
         all(m.kind == "warning" for m in res.msgs),
         "messages %s, expected duplicate imports at %s\n%s", res.text,
         case["warnings"], api.show(files))
    pkgs = {p.name: p for p in res.stab.values(ast.Package)}
    need(sorted(pkgs) == sorted(case["declared"] + case["late"]),
         "packages %s\n%s", sorted(pkgs), api.show(files))
    for n, p in pkgs.items():
        need(p.declared_late == (n in case["late"]),
             "package %s declared late: %s", n, p.declared_late)
        own = {p.name + "." + t.name: t for t in p.symbols.table.values()
               if isinstance(t, ast.Concrete_Type)}
        want = {k: v for k, v in case["types"].items()
                if k.split(".")[0] == n}
        need(sorted(own) == sorted(want), "types %s, expected %s\n%s",
             sorted(own), sorted(want), api.show(files))
        for fq, (kind, parent, comps) in want.items():
            t = own[fq]
            if kind == "enum":
                need(isinstance(t, ast.Enumeration_Type), "%s is a %s", fq,
                     type(t))
                continue
            need(isinstance(t, ast.Record_Type), "%s is a %s", fq, type(t))
            par = t.parent.fully_qualified_name() if t.parent else None
            need(par == parent, "%s extends %s, not %s\n%s", fq, par, parent,
                 api.show(files))
            have = [[c.name, c.n_typ.fully_qualified_name()
                     if isinstance(c.n_typ, ast.Concrete_Type)
                     else [x.fully_qualified_name() for x in c.n_typ.types]
                     if isinstance(c.n_typ, ast.Union_Type)
                     else c.n_typ.name] for c in t.all_components()]
            need(have == comps, "%s has components %s, not %s\n%s", fq, have,
                 comps, api.show(files))
    have = {}
    for o in res.stab.iter_record_objects():
        vals = {}
        for c, v in o.field.items():
            if isinstance(v, ast.Implicit_Null):
                vals[c] = None
            elif isinstance(v, ast.Record_Reference):
                vals[c] = {"$ref": v.target.fully_qualified_name()}
            elif isinstance(v, ast.Enumeration_Literal):
                vals[c] = {"$enum": v.value.name}
            elif isinstance(v, ast.String_Literal):
                vals[c] = {"$refs": [r.target.fully_qualified_name()
                                     for r in v.references]}
            else:
                vals[c] = v.value
        have[o.fully_qualified_name()] = [o.n_typ.fully_qualified_name(),
                                          vals]
    need(have == case["objs"], "objects %s, expected %s\n%s", have,
         case["objs"], api.show(files))
    return case["big"], "accepted"
