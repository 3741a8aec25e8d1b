"""P04: which token sequences are a value of a type, and which value."""
from fractions import Fraction
from vlib import api, prog, reflex, values
from vlib.api import need
from vlib.core import Reject
from vlib.prog import Arr, Enum, Rec, Tup, Uni, Val, Mark

ID = "P04"
RULE = ("the type is or contains a tuple or array, the value has at least"
        " three tokens, and the token sequence is not the one that was"
        " generated for the type or has at least six tokens")
QUICK = 30000
THOROUGH = 1000000


class Bad(Exception):
    pass


class Ref:
    """Reference parser for values"""
    def __init__(self, w, obj, toks, visible):
        self.w, self.obj, self.toks, self.i = w, obj, toks, 0
        self.visible = visible          # packages usable here
        self.fatal = True

    def kind(self, n=0):
        return self.toks[self.i + n][0] if self.i + n < len(self.toks) \
            else None

    def take(self, kind):
        if self.kind() != kind:
            raise Bad("%s, not %s" % (self.kind(), kind))
        self.i += 1
        return self.toks[self.i - 1][1]

    def package(self, name):
        for p in self.w.pkgs:
            if p.name == name:
                if p not in self.visible:
                    raise Bad("package %s not imported" % name)
                return p
        raise Bad("no package " + name)

    def value(self, ty):
        if ty in ("Integer", "Decimal"):
            sign = 1
            if self.kind() == "OPERATOR" and \
               self.toks[self.i][1] in ("+", "-"):
                sign = -1 if self.take("OPERATOR") == "-" else 1
            if ty == "Integer":
                return Val("int", sign * self.take("INTEGER"), ty)
            return Val("dec", sign * Fraction(self.take("DECIMAL")), ty)
        if ty in ("String", "Markup_String"):
            return Val("str", self.take("STRING"), ty)
        if ty == "Boolean":
            v = self.take("KEYWORD")
            if v not in ("true", "false"):
                raise Bad("keyword")
            return Val("bool", v == "true", ty)
        if isinstance(ty, Arr):
            self.take("S_BRA")
            rv = []
            while self.kind() != "S_KET":
                rv.append(self.value(ty.elem))
                if self.kind() == "COMMA":
                    self.take("COMMA")
                elif self.kind() != "S_KET":
                    raise Bad("comma missing in array")
            self.take("S_KET")
            if len(rv) < ty.lo or ty.hi is not None and len(rv) > ty.hi:
                # this is an error, but parsing goes on
                self.fatal = False
            return Val("arr", rv, ty)
        if isinstance(ty, Enum):
            n = self.take("IDENTIFIER")
            pkg = self.obj.pkg
            if n in [p.name for p in self.w.pkgs]:
                pkg = self.package(n)
                self.take("DOT")
                n = self.take("IDENTIFIER")
            if pkg is not ty.pkg or n != ty.name:
                raise Bad("other type")
            self.take("DOT")
            n = self.take("IDENTIFIER")
            if n not in ty.lits:
                raise Bad("no such literal")
            return Val("enum", n, ty)
        if isinstance(ty, (Rec, Uni)):
            n = self.take("IDENTIFIER")
            pkg = self.obj.pkg
            if self.kind() == "DOT":
                self.take("DOT")
                pkg = self.package(n)
                n = self.take("IDENTIFIER")
            for o in self.w.objs:
                if o.pkg is pkg and o.name == n:
                    if o.typ not in self.w.ref_targets(ty):
                        raise Bad("object of type " + o.typ.fq())
                    return Val("ref", o, ty)
            raise Bad("no object " + n)
        assert isinstance(ty, Tup)
        vals = {}
        if ty.seps is None:
            self.take("BRA")
        for i, c in enumerate(ty.comps):
            if i:
                if ty.seps is None:
                    self.take("COMMA")
                elif self.sep(ty.seps[i - 1]):
                    self.i += 1
                elif c.opt:
                    for r in ty.comps[i:]:
                        vals[r.name] = Val("null", None, r.ty)
                    break
                else:
                    raise Bad("separator missing")
            vals[c.name] = self.value(c.ty)
        if ty.seps is None:
            self.take("KET")
        return Val("tup", vals, ty)

    def sep(self, s):
        if s in ("@", ":", ";"):
            return self.kind() == {"@": "AT", ":": "COLON",
                                   ";": "SEMICOLON"}[s]
        return self.kind() == "IDENTIFIER" and self.toks[self.i][1] == s


def structured(ty):
    return isinstance(ty, (Tup, Arr))


def seps_of(w):
    rv = ["@", ":", ";", ",", "(", ")", "[", "]", ".", "-", "+"]
    for p in w.pkgs:
        for t in p.types:
            if t.k == "tuple" and t.seps:
                rv += t.seps * 2
    return rv


def mutate(R, w, o, toks):
    """change the token list"""
    def some():
        k = R.int(0, 6)
        if k <= 1:
            return R.choice(seps_of(w))
        if k == 2:
            return R.choice(["1", "0", "0x1f", "2.5", "0.0", '"a"', "true",
                             "false", "null", '"""b"""'])
        if k == 3:
            return R.choice(w.objs).name
        if k == 4:
            return R.choice([p.name for p in w.pkgs])
        if k == 5:
            ts = [t for p in w.pkgs for t in p.types]
            t = R.choice(ts)
            return R.choice([t.name] + (t.lits if t.k == "enum" else []))
        return R.choice(toks) if toks else "1"
    toks = list(toks)
    if R.bool(35):
        # leave out a field with its separator, or one of them
        seps = set(seps_of(w)[11:]) | {","}
        c = [i for i, t in enumerate(toks) if t in seps]
        if c:
            i = R.choice(c)
            j = i + 1
            while j < len(toks) and toks[j] not in seps and \
                    toks[j] not in ")]":
                j += 1
            k = R.weighted((4, 0), (1, 1), (1, 2))
            return toks[:i + (k == 1)] + toks[i + 1 if k == 2 else j:]
    for _ in range(R.weighted((5, 1), (3, 2), (1, 3))):
        n = len(toks)
        k = R.int(0, 7)
        i = R.int(0, max(0, n - 1))
        if k == 0 and n:
            del toks[i]
        elif k == 7 and n:
            # another letter case
            c = [j for j in range(n) if toks[j].isidentifier() and
                 toks[j].swapcase() != toks[j]] or [i]
            j = R.choice(c)
            if toks[j].isidentifier():
                toks[j] = R.choice([toks[j].swapcase(), toks[j].upper(),
                                    toks[j].lower(), toks[j].title()])
        elif k == 1:
            toks.insert(R.int(0, n), some())
        elif k == 2 and n:
            toks[i] = some()
        elif k == 3 and n:
            j = R.int(0, n - 1)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 4 and n:
            j = min(n, i + R.int(1, 4))
            toks[j:j] = toks[i:j]
        elif k == 5 and n:
            j = min(n, i + R.int(1, 4))
            del toks[i:j]
        elif n:
            toks = toks[:i] + ["("] + toks[i:] if R.bool() else \
                toks[:i] + toks[i + 1:]
    return toks


def gen(R):
    w = prog.build(R, max_pkgs=2, max_objs=4, sections=False)
    cands = []
    for o in w.objs:
        for n in o.vals:
            ty = o.typ.comp(n).ty
            cands += [(o, n, ty)] * (
                20 if isinstance(ty, Tup) and sum(c.opt for c in ty.comps) > 1
                else 8 if structured(ty) else 1)
    if not cands:
        raise Reject()
    o, n, ty = R.choice(cands)
    change = R.weighted((1, "no"), (5, "yes"), (2, "other"))
    seen = {}

    def fn(wr, head, name, items):
        new = []
        for it in items:
            if it[0] == n:
                if change == "other":
                    # a value of some other type
                    o2, n2, _ = R.choice(cands)
                    toks = wr.value(o2.vals[n2])
                else:
                    toks = [t for t in it[2:] if not isinstance(t, Mark)]
                if change == "yes":
                    toks = mutate(R, w, o, toks)
                seen["toks"] = toks
                new.append([n, "="] + toks)
        return head, name, [it for it in items if it[0] != n] + new

    from vlib.edits import Edit
    w.edit = Edit(o, "value", fn)
    files = prog.render(w, fancy=R.bool(50))
    fname, a, b = w.marks[("edit",)]
    # decide
    text = files[fname]
    all_toks, err = reflex.lex(text)
    assert err is None
    all_toks = [t for t in all_toks if t[0] != "COMMENT"]
    imports = [all_toks[i + 1][1] for i, t in enumerate(all_toks)
               if t[0] == "KEYWORD" and t[1] == "import"]
    visible = [p for p in w.pkgs if p is o.pkg or p.name in imports]
    toks, err = reflex.lex(" ".join(seen["toks"]))
    assert err is None
    toks = [t for t in toks if t[0] != "COMMENT"]
    p = Ref(w, o, toks, visible)
    case = {"files": files, "span": [fname, a, b], "comp": n,
            "tokens": seen["toks"], "fatal": True,
            "big": structured(ty) and len(toks) >= 3 and
            (change != "no" or len(toks) >= 6)}
    try:
        v = p.value(ty)
        if p.i != len(toks):
            if p.kind() == "IDENTIFIER" and p.kind(1) == "ASSIGN":
                raise Reject()
            raise Bad("left over")
        if not p.fatal:
            case["fatal"] = False
            raise Bad("array length")
        o.vals[n] = v
        case["expect"] = w.expected()
        for e in case["expect"].values():
            del e["section"]
    except Bad as b:
        case["bad"] = str(b)
        if str(b).startswith("comma missing"):
            case["fatal"] = False
    return case


def check(case):
    files = case["files"]
    res = api.process(files)
    what = "value %s of %s" % (" ".join(case["tokens"]), case["comp"])
    if "expect" in case:
        need(res.ok and not res.msgs, "%s is rejected: %s\n%s", what,
             res.text, api.show(files))
        values.compare(res.stab, case["expect"])
        return case["big"], "accepted"
    need(res.errors(), "%s is accepted (%s)\n%s", what, case["bad"],
         api.show(files))
    if case["fatal"]:
        need(res.stab is None, "a result despite %s\n%s", res.text,
             api.show(files))
    from vlib.edits import located
    need(located(files, case["span"], res.errors()),
         "no error in the object with %s (%s)\n%s\n%s", what, case["bad"],
         res.text, api.show(files))
    return case["big"], case["bad"].split()[0].strip(",")
