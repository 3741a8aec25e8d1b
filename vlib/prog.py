"""Generator of well-formed TRLC programs together with their meaning.

A World holds packages with types; objects carry values.  The meaning is
expressed with JSON data only:
  int, bool, str, None, list, dict (tuples), {"$dec": "n/d"} for decimals,
  {"$ref": "Pkg.obj"} for record references, {"$enum": "lit"} for
  enumeration literals.
"""
from fractions import Fraction
from vlib.core import Reject

BUILTIN = ("Boolean", "Integer", "Decimal", "String", "Markup_String")

TYPE_NAMES = ["Alpha", "Beta", "Gamma_T", "Delta", "Eps", "Zeta_2", "Eta",
              "Theta", "Iota_Kappa", "Lam", "Mu", "Nu", "Xi", "Omi", "Rho",
              "Sigma", "Tau", "Ups", "Phi", "Chi", "Psi", "Omega"]
PKG_NAMES = ["Pkg", "Lib", "Core_P", "Zoo", "Ab"]
COMP_NAMES = ["text", "ident", "val", "kind_of", "parent", "items", "other",
              "flag", "Size", "note", "a", "b2", "up_to", "xx", "level"]
OBJ_STEMS = ["req", "Item", "obj_", "Thing", "n"]
LITS = ["QM", "A", "B", "C", "yes", "no", "Alpha", "text", "x"]
SEPS = ["@", ":", ";", "sep", "x", "b", "to"]


class Enum:
    k = "enum"

    def __init__(self, pkg, name, lits):
        self.pkg, self.name, self.lits = pkg, name, lits


class Comp:
    def __init__(self, name, ty, opt, owner):
        self.name, self.ty, self.opt, self.owner = name, ty, opt, owner
        self.desc = None


class Tup:
    k = "tuple"

    def __init__(self, pkg, name):
        self.pkg, self.name = pkg, name
        self.comps = []
        self.seps = None        # list of separators or None
        self.checks = []


class Rec:
    k = "record"

    def __init__(self, pkg, name):
        self.pkg, self.name = pkg, name
        self.parent = None
        self.abstract = self.final = False
        self.own = []
        self.freezes = {}       # comp name -> value
        self.checks = []        # list of check blocks

    def is_final(self):
        return self.final or (self.parent is not None and
                              self.parent.is_final())

    def comps(self):
        return (self.parent.comps() if self.parent else []) + self.own

    def comp(self, name):
        for c in self.comps():
            if c.name == name:
                return c
        raise KeyError(name)

    def frozen(self):
        rv = dict(self.parent.frozen()) if self.parent else {}
        rv.update(self.freezes)
        return rv

    def is_a(self, other):
        return self is other or (self.parent is not None and
                                 self.parent.is_a(other))

    def chain(self):
        return (self.parent.chain() if self.parent else []) + [self]

    def fq(self):
        return self.pkg.name + "." + self.name


class Arr:
    k = "array"

    def __init__(self, elem, lo, hi):
        self.elem, self.lo, self.hi = elem, lo, hi


class Uni:
    k = "union"

    def __init__(self, members):
        self.members = members


class Pkg:
    def __init__(self, name, rsl):
        self.name, self.rsl = name, rsl
        self.imports = []
        self.types = []
        self.types_by_name = {}


class Obj:
    def __init__(self, pkg, name, typ):
        self.pkg, self.name, self.typ = pkg, name, typ
        self.vals = {}
        self.section = []

    def fq(self):
        return self.pkg.name + "." + self.name


class Val:
    """kind: int dec bool str enum arr tup ref null"""
    def __init__(self, kind, v, ty):
        self.kind, self.v, self.ty = kind, v, ty


def meaning(v):
    k = v.kind
    if k == "null":
        return None
    if k in ("int", "bool", "str"):
        return v.v
    if k == "dec":
        return {"$dec": "%u/%u" % (v.v.numerator, v.v.denominator)
                if v.v >= 0 else "-%u/%u" % (-v.v.numerator, v.v.denominator)}
    if k == "enum":
        return {"$enum": v.v}
    if k == "ref":
        return {"$ref": v.v.fq()}
    if k == "arr":
        return [meaning(x) for x in v.v]
    if k == "tup":
        return {n: meaning(x) for n, x in v.v.items()}
    raise AssertionError(k)


class Opts:
    def __init__(self, **kw):
        self.max_pkgs = 3
        self.max_types = 6
        self.max_objs = 6
        self.markup = True
        self.unions = True
        self.freeze = True
        self.late = True
        self.sections = True
        self.fancy_literals = True
        self.tuples = True
        self.extra = {}
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


# -- types ----------------------------------------------------------------

class World:
    def __init__(self, R, opts):
        self.R = R
        self.opts = opts
        self.pkgs = []
        self.objs = []
        self.names = {}
        n = R.int(1, opts.max_pkgs)
        names = R.sample(PKG_NAMES, n)
        for i, name in enumerate(names):
            rsl = i == 0 or not (opts.late and R.bool(15))
            self.pkgs.append(Pkg(name, rsl))
        done = []
        for p in self.pkgs:
            if p.rsl:
                # imports are picked from the packages already built: acyclic
                p.imports = R.subset(done, 60)
                self.gen_types(p)
                done.append(p)

    def visible(self, pkg, kinds):
        rv = []
        for p in [pkg] + pkg.imports:
            rv += [t for t in p.types if t.k in kinds]
        return rv

    def gen_types(self, pkg):
        R = self.R
        tnames = R.sample(TYPE_NAMES, R.int(1, self.opts.max_types))
        for name in tnames:
            k = R.weighted((6, "record"), (2, "enum"),
                           (3 if self.opts.tuples else 0, "tuple"))
            if k == "enum":
                t = Enum(pkg, name, R.sample(LITS, R.int(1, 4)))
                pkg.types.append(t)
            elif k == "tuple":
                pkg.types.append(self.gen_tuple(pkg, name))
            else:
                pkg.types.append(self.gen_record(pkg, name))

    def gen_tuple(self, pkg, name):
        R = self.R
        t = Tup(pkg, name)
        n = R.int(1, 4)
        with_sep = n > 1 and R.bool(55)
        names = R.sample(COMP_NAMES, n)
        opt = False
        if with_sep:
            t.seps = [R.choice(SEPS) for _ in range(n - 1)]
        for i, cn in enumerate(names):
            if with_sep and i > 0 and not opt:
                opt = R.bool(35)
            ty = self.pick_type(pkg, None, tuple_field=True,
                                no_sep_tuples=with_sep)
            t.comps.append(Comp(cn, ty, opt, t))
        return t

    def has_seps(self, ty):
        return isinstance(ty, Tup) and ty.seps is not None

    def pick_type(self, pkg, self_rec, tuple_field=False,
                  no_sep_tuples=False):
        R = self.R
        cands = ["b"]
        enums = self.visible(pkg, ("enum",))
        tups = [t for t in self.visible(pkg, ("tuple",))
                if not (no_sep_tuples and self.has_seps(t))]
        recs = self.visible(pkg, ("record",))
        if self_rec is not None:
            recs = recs + [self_rec]
        k = R.weighted((7, "builtin"), (2 if enums else 0, "enum"),
                       (3 if tups else 0, "tuple"),
                       (4 if recs else 0, "record"),
                       (2 if recs and self.opts.unions else 0, "union"))
        del cands
        if k == "builtin":
            base = ["Integer", "String", "Boolean", "Decimal"]
            if self.opts.markup:
                base.append("Markup_String")
            return R.choice(base)
        if k == "enum":
            return R.choice(enums)
        if k == "tuple":
            return R.choice(tups)
        if k == "record":
            return R.choice(recs)
        return Uni(R.sample(recs, R.int(1, min(3, len(recs)))))

    def gen_record(self, pkg, name):
        R = self.R
        t = Rec(pkg, name)
        parents = self.visible(pkg, ("record",))
        if parents and R.bool(50):
            t.parent = R.choice(parents)
        q = R.weighted((7, None), (2, "abstract"), (1, "final"))
        parent_final = t.parent is not None and t.parent.is_final()
        t.abstract = q == "abstract" and not parent_final
        t.final = q == "final"
        taken = {c.name for c in t.comps()}
        if not parent_final:
            for cn in R.sample([c for c in COMP_NAMES if c not in taken],
                               R.int(0, 5)):
                ty = self.pick_type(pkg, t)
                if R.bool(25):
                    lo = R.weighted((4, 0), (3, 1), (1, 2))
                    hi = R.weighted((4, None), (2, lo + 1), (2, lo + 2),
                                    (1, max(lo, 1)))
                    ty = Arr(ty, lo, hi)
                t.own.append(Comp(cn, ty, R.bool(40), t))
        return t

    # -- objects ------------------------------------------------------------

    def records(self):
        return [t for p in self.pkgs for t in p.types if t.k == "record"]

    def concretes(self, rec):
        return [t for t in self.records() if not t.abstract and t.is_a(rec)]

    def ref_targets(self, ty):
        if isinstance(ty, Uni):
            rv = []
            for m in ty.members:
                for t in self.concretes(m):
                    if t not in rv:
                        rv.append(t)
            return rv
        return self.concretes(ty)

    def required_refs(self, ty):
        """reference types that any value of ty must provide"""
        if isinstance(ty, (Rec, Uni)):
            return [ty]
        if isinstance(ty, Arr):
            return self.required_refs(ty.elem) if ty.lo > 0 else []
        if isinstance(ty, Tup):
            rv = []
            for c in ty.comps:
                if not c.opt:
                    rv += self.required_refs(c.ty)
            return rv
        return []

    def compute_instantiable(self):
        good = set(t for t in self.records() if not t.abstract)
        while True:
            bad = set()
            for t in good:
                frozen = t.frozen()
                for c in t.comps():
                    if c.opt or c.name in frozen:
                        continue
                    for r in self.required_refs(c.ty):
                        if not any(x in good for x in self.ref_targets(r)):
                            bad.add(t)
            if not bad:
                break
            good -= bad
        self.instantiable = [t for t in self.records() if t in good]

    def new_obj(self, typ):
        R = self.R
        # an object may live in any package
        if R.bool(70) or len(self.pkgs) == 1:
            pkg = typ.pkg
        else:
            pkg = R.choice(self.pkgs)
        return self.place_obj(pkg, typ)

    def place_obj(self, pkg, typ):
        R = self.R
        n = self.names.get(pkg, 0)
        self.names[pkg] = n + 1
        o = Obj(pkg, R.choice(OBJ_STEMS) + str(n + 1), typ)
        self.objs.append(o)
        return o

    def gen_freezes(self):
        """freeze some components; done once the objects exist so that
        references can be frozen too"""
        R = self.R
        if not self.opts.freeze:
            return
        for t in self.records():
            frozen = t.frozen()
            for c in t.comps():
                if c.name in frozen or not R.bool(18):
                    continue
                if any(s is not t and s.is_a(t) and c.name in s.freezes
                       for s in self.records()):
                    continue
                if not self.can_value(c.ty, t.pkg.imports + [t.pkg]):
                    continue
                t.freezes[c.name] = self.gen_value(
                    c.ty, t.pkg.imports + [t.pkg], 0)

    def can_value(self, ty, pkgs):
        """can a literal of this type be written where only the given
        packages are visible (None: all)"""
        if isinstance(ty, (Rec, Uni)):
            return bool(self.candidates(ty, pkgs))
        if isinstance(ty, Enum):
            return pkgs is None or ty.pkg in pkgs
        if isinstance(ty, Arr):
            return ty.lo == 0 or self.can_value(ty.elem, pkgs)
        if isinstance(ty, Tup):
            return all(c.opt or self.can_value(c.ty, pkgs) for c in ty.comps)
        return True

    def candidates(self, ty, pkgs):
        targets = self.ref_targets(ty)
        return [o for o in self.objs if o.typ in targets and
                (pkgs is None or o.pkg in pkgs)]

    def populate(self):
        R = self.R
        self.compute_instantiable()
        if self.instantiable:
            for _ in range(R.int(1, self.opts.max_objs)):
                self.new_obj(R.choice(self.instantiable))
        self.gen_freezes()
        i = 0
        while i < len(self.objs):
            self.fill(self.objs[i])
            i += 1
            if i > 60:
                raise Reject()

    def fill(self, o):
        R = self.R
        frozen = o.typ.frozen()
        for c in o.typ.comps():
            if c.name in frozen:
                continue
            if c.opt and (R.bool(40) or not self.can_value(c.ty, None)):
                continue
            o.vals[c.name] = self.gen_value(c.ty, None, 0)

    def pick_ref(self, ty, pkgs):
        R = self.R
        cands = self.candidates(ty, pkgs)
        if pkgs is None and (not cands or (len(self.objs) < 8 and
                                           R.bool(10))):
            ts = [t for t in self.ref_targets(ty) if t in self.instantiable]
            if not ts:
                raise Reject()
            return self.new_obj(R.choice(ts))
        if not cands:
            raise Reject()
        return R.choice(cands)

    def gen_value(self, ty, pkgs, depth):
        R = self.R
        if ty == "Integer":
            return Val("int", gen_int(R), ty)
        if ty == "Decimal":
            return Val("dec", gen_dec(R), ty)
        if ty == "Boolean":
            return Val("bool", R.bool(), ty)
        if ty == "String":
            return Val("str", gen_string(R), ty)
        if ty == "Markup_String":
            return Val("str", gen_string(R, markup=True), ty)
        if isinstance(ty, Enum):
            return Val("enum", R.choice(ty.lits), ty)
        if isinstance(ty, Arr):
            hi = ty.hi if ty.hi is not None else ty.lo + 3
            n = R.int(ty.lo, hi)
            if n and not self.can_value(ty.elem, pkgs) and \
               (pkgs is not None or
                    not self.elem_possible(ty.elem)):
                n = 0
            return Val("arr", [self.gen_value(ty.elem, pkgs, depth + 1)
                               for _ in range(n)], ty)
        if isinstance(ty, Tup):
            vals = {}
            stop = False
            for i, c in enumerate(ty.comps):
                if not stop and c.opt:
                    stop = R.bool(40) or not self.can_value(c.ty, pkgs)
                if stop:
                    vals[c.name] = Val("null", None, c.ty)
                else:
                    vals[c.name] = self.gen_value(c.ty, pkgs, depth + 1)
            return Val("tup", vals, ty)
        return Val("ref", self.pick_ref(ty, pkgs), ty)

    def elem_possible(self, ty):
        return all(any(x in self.instantiable for x in self.ref_targets(r))
                   for r in self.required_refs(ty))

    # -- meaning ------------------------------------------------------------

    def expected(self, objs=None):
        rv = {}
        for o in (self.objs if objs is None else objs):
            frozen = o.typ.frozen()
            d = {}
            for c in o.typ.comps():
                if c.name in frozen:
                    d[c.name] = meaning(frozen[c.name])
                elif c.name in o.vals:
                    d[c.name] = meaning(o.vals[c.name])
                else:
                    d[c.name] = None
            rv[o.fq()] = {"type": o.typ.fq(), "vals": d,
                          "section": [s for s in o.section]}
        return rv


# -- literals ---------------------------------------------------------------

def gen_int(R):
    k = R.int(0, 9)
    if k < 6:
        return R.int(-20, 20)
    if k < 9:
        return R.int(-100000, 100000)
    return R.int(-10 ** 25, 10 ** 25)


def gen_dec(R):
    if R.bool(8):
        # more digits than a float can hold
        d = R.int(12, 40)
        return Fraction(R.int(-20, 20) if R.bool() else
                        R.int(-10 ** 45, 10 ** 45), 10 ** d)
    d = R.int(0, 5)
    return Fraction(R.int(-10 ** (d + 2), 10 ** (d + 2)), 10 ** d)


def gen_string(R, markup=False):
    n = R.int(0, 3)
    words = ["foo", "bar", "a b", "the [x]", "it's", 'say "hi"', "100%",
             "tab\tx", "back\\slash", "é日", "/* no */", "// no", "=", "{", "",
             "'", "x\\n"]
    if markup:
        words = [w for w in words if "[" not in w]
    s = " ".join(R.choice(words) for _ in range(n))
    if R.bool(25):
        s += "\n" + R.choice(["next", "  ind", "", "z"]) + "\n" + \
            R.choice(["end", "last one"])
    return s


def int_text(R, n, fancy):
    """tokens for an integer literal"""
    toks = []
    if n < 0:
        toks.append("-")
    elif fancy and R.bool(8):
        toks.append("+")
    a = abs(n)
    k = R.weighted((6, "d"), (1, "x"), (1, "b"), (1, "X"), (1, "z")) \
        if fancy else "d"
    if k == "d":
        s = str(a)
    elif k == "z":
        s = "0" * R.int(1, 2) + str(a)
    elif k == "x":
        s = "0x%x" % a
    elif k == "X":
        s = "0x%X" % a
    else:
        s = "0b" + bin(a)[2:]
    if fancy and k in ("d", "z") and len(s) > 1 and R.bool(15):
        i = R.int(1, len(s) - 1)
        s = s[:i] + "_" + s[i:]
    return toks + [s]


def dec_text(R, q, fancy):
    toks = []
    if q < 0:
        toks.append("-")
    elif fancy and R.bool(8):
        toks.append("+")
    a = abs(q)
    digits = 0
    while (a * 10 ** digits).denominator != 1:
        digits += 1
    k = max(digits, 1)
    if fancy:
        k += R.weighted((6, 0), (1, 1), (1, 3))
    s = str(int(a * 10 ** k)).rjust(k + 1, "0")
    ip, fp = s[:-k], s[-k:]
    if fancy and R.bool(10):
        ip = "00" + ip
    if fancy and len(fp) > 1 and R.bool(10):
        fp = fp[0] + "_" + fp[1:]
    return toks + [ip + "." + fp]


def string_text(R, s, fancy):
    """one token denoting the given string value"""
    opts = []
    if "\n" not in s and not s.endswith("\\"):
        opts.append("d")
    lines = s.split("\n")
    if s == s.strip() and \
       all(l == l.rstrip() for l in lines) and \
       all(l.strip() or l == "" for l in lines) and \
       (len([l for l in lines[1:] if l]) == 0 or
            any(l[0] not in " \t" for l in lines[1:] if l)):
        for q in ("'''", '"""'):
            if q not in s and not s.endswith(q[0]) and \
               not s.startswith(q[0]):
                opts.append(q)
    if not opts:
        raise Reject()
    k = R.choice(opts) if fancy else opts[0]
    if k == "d":
        return '"' + s.replace('"', '\\"') + '"'
    if not fancy:
        return k + s + k
    ind = R.choice(["", "  ", "\t", "       "])
    rv = k
    if R.bool(40) and s:
        rv += R.choice(["\n", "  \n", "\n\n"]) + ind
    rv += lines[0]
    for l in lines[1:]:
        rv += R.choice(["\n", "\n", " \n"]) + (ind + l if l else
                                               R.choice(["", ind]))
    if R.bool(40):
        rv += R.choice(["\n", " ", "\n   "])
    return rv + k


# -- rendering --------------------------------------------------------------

class Mark:
    """Pseudo token: begin or end of something whose position matters."""
    __slots__ = ("key", "begin")

    def __init__(self, key, begin):
        self.key, self.begin = key, begin


class Writer:
    """Emits token lists for one file."""
    edit = None

    def __init__(self, R, pkg, fancy):
        self.R, self.pkg, self.fancy = R, pkg, fancy
        self.used = set()       # packages that must be imported
        self.toks = []
        self.marks = {}         # key -> [start, end] offsets, after text()

    def t(self, *toks):
        self.toks += toks

    def nl(self):
        self.toks.append("\n")

    def qual(self, pkg, name):
        if pkg is self.pkg and not (self.fancy and self.R.bool(20)):
            return [name]
        if pkg is not self.pkg:
            self.used.add(pkg)
        return [pkg.name, ".", name]

    def desc(self):
        if self.fancy and self.R.bool(15):
            self.t(self.R.choice(['"a description"', "'''some\n  text'''",
                                  '""']))

    def ty(self, ty):
        if isinstance(ty, str):
            return [ty]
        if isinstance(ty, Uni):
            rv = ["["]
            for i, m in enumerate(ty.members):
                if i:
                    rv.append(",")
                rv += self.qual(m.pkg, m.name)
            return rv + ["]"]
        if isinstance(ty, Arr):
            # a union element type looks just like any other element type
            return self.ty(ty.elem) + ["[", str(ty.lo), "..",
                                       "*" if ty.hi is None else str(ty.hi),
                                       "]"]
        return self.qual(ty.pkg, ty.name)

    def type_decl(self, t):
        if self.edit is not None and self.edit.target is t:
            self.t(Mark(("edit",), True))
            self.type_decl2(t, self.edit.fn)
            self.t(Mark(("edit",), False))
        else:
            self.type_decl2(t, None)
        self.nl()

    def described(self, *toks):
        save, self.toks = self.toks, []
        self.t(*toks)
        self.desc()
        rv, self.toks = self.toks, save
        return rv

    def type_decl2(self, t, fn):
        """head is everything up to {, items the token lists inside"""
        items = []
        if t.k == "enum":
            head = ["enum", t.name]
            for l in t.lits:
                items.append(self.described(l))
        elif t.k == "tuple":
            head = ["tuple", t.name]
            for i, c in enumerate(t.comps):
                if i and t.seps:
                    items.append(["separator", t.seps[i - 1]])
                    if self.markcomps:
                        key = ("sep", t.pkg.name, t.name, i - 1)
                        items[-1] = [Mark(key, True)] + items[-1] + \
                            [Mark(key, False)]
                items.append(self.comp_decl(c))
        else:
            head = []
            if t.abstract:
                head.append("abstract")
            if t.final:
                head.append("final")
            head += ["type", t.name]
            for c in t.own:
                items.append(self.comp_decl(c))
            for name, v in t.freezes.items():
                items.append(["freeze", name, "="] +
                             self.value(v, ("freeze", t.fq(), name)))
        head = self.described(*head)
        if self.markcomps:
            key = ("type", t.pkg.name, t.name)
            i = head.index(t.name)
            head = head[:i] + [Mark(key, True), t.name, Mark(key, False)] + \
                head[i + 1:]
        if t.k == "record" and t.parent:
            head += ["extends"] + self.qual(t.parent.pkg, t.parent.name)
        if fn is not None:
            rv = fn(self, head, items)
            if rv is not None:
                head, items = rv
        self.t(*head)
        self.t("{")
        if t.k != "enum":
            self.nl()
        for it in items:
            self.t(*it)
            if t.k != "enum":
                self.nl()
        self.t("}")

    markcomps = False

    def comp_decl(self, c):
        rv = self.described(c.name)
        if c.opt:
            rv.append("optional")
        rv += self.ty(c.ty)
        if self.markcomps:
            key = ("comp", c.owner.pkg.name, c.owner.name, c.name)
            return [Mark(key, True)] + rv + [Mark(key, False)]
        return rv

    def value(self, v, key=None):
        """tokens of a value; with a key the extents of it and of all
        tuples in it are marked"""
        if key is None:
            return self.value_toks(v, None)
        return [Mark(key, True)] + self.value_toks(v, key) + \
            [Mark(key, False)]

    def value_toks(self, v, key):
        R = self.R

        def sub(what):
            return None if key is None else key + (what,)
        k = v.kind
        if k == "int":
            return int_text(R, v.v, self.fancy)
        if k == "dec":
            return dec_text(R, v.v, self.fancy)
        if k == "bool":
            return ["true" if v.v else "false"]
        if k == "str":
            return [string_text(R, v.v, self.fancy)]
        if k == "enum":
            return self.qual(v.ty.pkg, v.ty.name) + [".", v.v]
        if k == "ref":
            return self.qual(v.v.pkg, v.v.name)
        if k == "arr":
            rv = ["["]
            for i, x in enumerate(v.v):
                if i:
                    rv.append(",")
                rv += self.value(x, sub(i))
            return rv + ["]"]
        if k == "tup":
            t = v.ty
            rv = []
            if t.seps is None:
                rv.append("(")
            for i, c in enumerate(t.comps):
                x = v.v[c.name]
                if x.kind == "null":
                    break
                if i:
                    rv.append(t.seps[i - 1] if t.seps else ",")
                rv += self.value(x, sub(c.name))
            if t.seps is None:
                rv.append(")")
            return rv
        raise AssertionError(k)

    def obj(self, o):
        head = self.qual(o.typ.pkg, o.typ.name)
        names = list(o.vals)
        if self.fancy:
            names = self.R.shuffle(names)
        items = [[n, "="] + self.value(o.vals[n], ("val", o.fq(), n))
                 for n in names]
        name = [o.name]
        edit = self.edit is not None and self.edit.target is o
        if edit:
            self.t(Mark(("edit",), True))
            rv = self.edit.fn(self, head, name, items)
            if rv is not None:
                head, name, items = rv
        self.t(*head)
        self.t(Mark(("obj", o.fq()), True), *name)
        self.t(Mark(("obj", o.fq()), False), "{")
        self.nl()
        for it in items:
            self.t(*it)
            self.nl()
        self.t("}")
        if edit:
            self.t(Mark(("edit",), False))
        self.nl()

    def text(self, imports=(), extra_imports=()):
        pre = ["package", self.pkg.name, "\n"]
        names = [p.name for p in imports]
        for p in self.used:
            if p.name not in names:
                names.append(p.name)
        for n in extra_imports:
            if n not in names:
                names.append(n)
        for n in (self.R.shuffle(names) if self.fancy else names):
            pre += ["import", n, "\n"]
        return layout(pre + self.toks, self.R if self.fancy else None,
                      self.marks)


FREE = set("(){}[],@;+-")


def layout(toks, R=None, marks=None):
    """Join tokens; with R use arbitrary whitespace and comments"""
    out = []
    prev = None
    pos = 0
    pending = []
    if marks is None:
        marks = {}
    plain = R is None or R.bool(50)
    for t in toks:
        if isinstance(t, Mark):
            if t.begin:
                pending.append(t.key)
            else:
                marks[t.key].append(pos)
            continue
        if t == "\n":
            if plain:
                out.append("\n")
                pos += 1
                prev = None
            continue
        if prev is not None or not plain:
            if plain:
                out.append(" ")
                pos += 1
            else:
                glue_ok = prev is None or prev in FREE or t in FREE
                ws = R.weighted((12, " "), (3, "\n"),
                                (4 if glue_ok else 0, ""), (1, "\t"),
                                (1, "\r\n"), (1, "/* c */"),
                                (1, " // c \"'\n"), (1, "  \n\n "),
                                (1, "/* \" { * / */"), (1, "\u00a0"))
                if prev == "/" and ws.startswith("/"):
                    ws = " " + ws
                out.append(ws)
                pos += len(ws)
        for key in pending:
            marks[key] = [pos]
        pending = []
        out.append(t)
        pos += len(t)
        prev = t
    return "".join(out) + "\n"


def split(R, objs, k):
    """distribute objects over k files"""
    files = [[] for _ in range(k)]
    for o in objs:
        files[R.int(0, k - 1)].append(o)
    return files


def emit_section_tree(R, w, objs):
    """emit objects in (nested) sections, recording the section path in
    each object"""
    names = ["Intro", "Part A", "", "Part A", "x \\\"y\\\""]

    def rec(todo, path, depth):
        while todo:
            if depth < 3 and R.bool(25):
                name = R.choice(names)
                n = R.int(0, len(todo))
                w.t("section", '"' + name + '"', "{")
                w.nl()
                inner = todo[:n]
                rec(inner, path + [name.replace('\\"', '"')], depth + 1)
                todo = todo[n:]
                w.t("}")
                w.nl()
                if n == 0 and R.bool(50):
                    depth = 3
            else:
                todo[0].section = list(path)
                w.obj(todo[0])
                todo = todo[1:]
    rec(list(objs), [], 0)


def render(world, fancy=True, nfiles=2, late_only=None, subdirs=False):
    """-> dict file name -> text"""
    R = world.R
    files = {}
    world.marks = {}
    world.unused = {}       # file -> imported but not used

    def keep(w, name):
        for key, span in w.marks.items():
            world.marks[key] = [name] + span

    for p in world.pkgs:
        if p.rsl:
            w = Writer(R, p, fancy)
            w.markcomps = world.opts.extra.get("markcomps", False)
            w.edit = getattr(world, "edit", None)
            for t in p.types:
                w.type_decl(t)
                for blk in world.opts.extra.get("blocks", {}).get(t, []):
                    blk(w)
            for blk in world.opts.extra.get("tail", {}).get(p, []):
                blk(w)
            name = "%s.rsl" % p.name.lower()
            files[name] = w.text(imports=p.imports)
            world.unused[name] = {q.name for q in p.imports if
                                  q not in w.used}
            keep(w, name)
    for p in world.pkgs:
        objs = [o for o in world.objs if o.pkg is p]
        k = R.int(1, nfiles)
        if not objs and p.rsl and R.bool(60):
            continue
        if fancy:
            objs = R.shuffle(objs)
        for i, part in enumerate(split(R, objs, k)):
            w = Writer(R, p, fancy)
            w.edit = getattr(world, "edit", None)
            if world.opts.sections and fancy:
                emit_section_tree(R, w, part)
            else:
                for o in part:
                    w.obj(o)
            name = "%s_%u.trlc" % (p.name.lower(), i)
            extra = []
            if world.opts.extra.get("imports"):
                extra = R.subset([q.name for q in world.pkgs if q is not p
                                  and q.rsl], 30)
            files[name] = w.text(extra_imports=extra)
            world.unused[name] = set(extra) - {q.name for q in w.used}
            keep(w, name)
    return files


def build(R, **kw):
    w = World(R, Opts(**kw))
    w.populate()
    return w
