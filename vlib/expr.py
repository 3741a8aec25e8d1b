"""Check expressions: an independent parser, type checker and evaluator
following the language reference manual, and a generator.

Tokens are plain strings.  Parsed expressions are nested tuples:
  ("lit", type, value) ("null",) ("enum", Enum, lit) ("name", entity)
  ("field", e, name) ("index", e, e) ("un", op, e) ("bin", op, e, e)
  ("range", e, lo, hi) ("in", e, e) ("cond", [(c, e)...], e)
  ("quant", universal, Var, comp, body) ("call", fname, [args])
"""
import re
from fractions import Fraction
from vlib.prog import (Enum, Tup, Rec, Uni, Arr, Comp, Pkg, Obj, Val, World,
                       Opts, Writer)
from vlib import prog

KEYWORDS = {"and", "or", "xor", "implies", "not", "in", "abs", "if", "then",
            "elsif", "else", "forall", "exists", "true", "false", "null"}


class Bad(Exception):
    """statically invalid"""


class RunErr(Exception):
    """runtime error (null operand, division by zero, ...)"""


class Ambiguous(prog.Reject):
    """the manual does not settle this; not a usable case"""


class Var:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty


# -- parser -----------------------------------------------------------------

class P:
    """Recursive descent over the grammar of the manual, resolving names as
    it goes.  env: name -> Comp (components); enums: name -> Enum."""

    def __init__(self, toks, env, enums, pkgs=None, taken=()):
        self.t = toks
        self.i = 0
        self.env = env
        self.enums = enums
        self.pkgs = pkgs or {}
        self.vars = []
        self.taken = set(taken)

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, tok=None):
        x = self.peek()
        if x is None or (tok is not None and x != tok):
            raise Bad("expected %s, got %s" % (tok, x))
        self.i += 1
        return x

    def ident(self):
        x = self.take()
        if not re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", x) or x in RESERVED:
            raise Bad("not an identifier: %s" % x)
        return x

    def all(self):
        e = self.expression()
        if self.peek() is not None:
            raise Bad("left over: %s" % self.peek())
        return e

    def expression(self):
        l = self.relation()
        op = self.peek()
        if op in ("and", "or"):
            while self.peek() == op:
                self.take()
                l = ("bin", op, l, self.relation())
        elif op in ("xor", "implies"):
            self.take()
            l = ("bin", op, l, self.relation())
        return l

    def relation(self):
        l = self.simple()
        op = self.peek()
        if op in ("==", "!=", "<", "<=", ">", ">="):
            self.take()
            return ("bin", op, l, self.simple())
        if op in ("not", "in"):
            neg = op == "not"
            if neg:
                self.take()
            self.take("in")
            a = self.simple()
            if self.peek() == "..":
                self.take()
                rv = ("range", l, a, self.simple())
            else:
                rv = ("in", l, a)
            return ("un", "not", rv) if neg else rv
        return l

    def simple(self):
        op = self.peek()
        if op in ("+", "-"):
            self.take()
            l = ("un", op, self.term())
        else:
            l = self.term()
        while self.peek() in ("+", "-"):
            op = self.take()
            l = ("bin", op, l, self.term())
        return l

    def term(self):
        l = self.factor()
        while self.peek() in ("*", "/", "%"):
            op = self.take()
            l = ("bin", op, l, self.factor())
        return l

    def factor(self):
        op = self.peek()
        if op in ("not", "abs"):
            self.take()
            return ("un", op, self.primary())
        l = self.primary()
        if self.peek() == "**":
            self.take()
            return ("bin", "**", l, self.primary())
        return l

    def primary(self):
        x = self.peek()
        if x is None:
            raise Bad("end of expression")
        if x == "(":
            self.take()
            if self.peek() in ("forall", "exists"):
                rv = self.quantified()
            elif self.peek() == "if":
                rv = self.conditional()
            else:
                rv = self.expression()
            self.take(")")
            return rv
        if x in ("true", "false"):
            self.take()
            return ("lit", "Boolean", x == "true")
        if x == "null":
            self.take()
            return ("null",)
        if x[0] == '"':
            self.take()
            return ("lit", "String", x[3:-3] if x.startswith('"""') else
                    x[1:-1].replace('\\"', '"'))
        if x[0].isdigit():
            self.take()
            if "." in x:
                return ("lit", "Decimal", Fraction(x))
            return ("lit", "Integer", int(x))
        return self.name()

    def lookup(self, n):
        for v in reversed(self.vars):
            if v.name == n:
                return v
        return self.env.get(n)

    def quantified(self):
        univ = self.take() == "forall"
        v = self.ident()
        if self.lookup(v) is not None or v in self.enums or v in self.taken \
           or v in BUILTINS:
            raise Bad("shadows %s" % v)
        self.take("in")
        n = self.ident()
        c = self.lookup(n)
        if not isinstance(c, Comp):
            raise Bad("not a component: %s" % n)
        if not isinstance(c.ty, Arr):
            raise Bad("not an array: %s" % n)
        self.take("=>")
        var = Var(v, c.ty.elem)
        self.vars.append(var)
        body = self.expression()
        self.vars.pop()
        return ("quant", univ, var, c, body)

    def conditional(self):
        acts = []
        self.take("if")
        c = self.expression()
        self.take("then")
        acts.append((c, self.expression()))
        while self.peek() == "elsif":
            self.take()
            c = self.expression()
            self.take("then")
            acts.append((c, self.expression()))
        self.take("else")
        return ("cond", acts, self.expression())

    def on_field(self, e, index):
        pass

    def name(self):
        x = self.ident()
        if self.peek() == "(":
            if x not in FUNCTIONS:
                raise Bad("not a function: %s" % x)
            self.take("(")
            args = []
            while self.peek() != ")":
                args.append(self.expression())
                if self.peek() == ",":
                    self.take()
                    if self.peek() == ")":
                        raise Ambiguous()    # trailing comma
                else:
                    break
            self.take(")")
            return ("call", x, args)
        ent = self.lookup(x)
        if ent is None and x in self.pkgs and x not in self.enums:
            self.take(".")
            y = self.ident()
            if y not in self.pkgs[x]:
                raise Bad("not in package %s: %s" % (x, y))
            en = self.pkgs[x][y]
        else:
            en = self.enums.get(x) if ent is None else None
        if en is not None:
            self.take(".")
            l = self.ident()
            if l not in en.lits:
                raise Bad("not a literal: %s" % l)
            return ("enum", en, l)
        if ent is None:
            raise Bad("unknown name %s" % x)
        e = ("name", ent)
        while self.peek() in (".", "["):
            if self.take() == ".":
                self.on_field(e, self.i)
                e = ("field", e, self.ident())
            else:
                i = self.expression()
                self.take("]")
                e = ("index", e, i)
        return e


FUNCTIONS = {"len": 1, "startswith": 2, "endswith": 2, "matches": 2,
             "oneof": None, "Integer": 1, "Decimal": 1}
BUILTINS = set(FUNCTIONS) | {"Boolean", "String", "Markup_String"}
RESERVED = None


def _reserved():
    global RESERVED
    from vlib import reflex
    RESERVED = set(reflex.KEYWORDS)


_reserved()


# -- types ------------------------------------------------------------------

NUM = ("Integer", "Decimal")
STR = ("String", "Markup_String")


def union_fields(u):
    rv = {}
    for m in u.members:
        for c in m.comps():
            e = rv.setdefault(c.name, [c, 0, False])
            e[1] += 1
            if e[0].ty is not c.ty:
                e[2] = True
    return rv


def members(t):
    return t.members if isinstance(t, Uni) else [t]


def typ(e):
    """type of an expression; None for null.  Raises Bad."""
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "null":
        return None
    if k == "enum":
        return e[1]
    if k == "name":
        return e[1].ty
    if k == "field":
        t = typ(e[1])
        if isinstance(t, Uni):
            f = union_fields(t).get(e[2])
            if f is None or f[2]:
                raise Bad("union field")
            return f[0].ty
        if isinstance(t, Rec):
            for c in t.comps():
                if c.name == e[2]:
                    return c.ty
            raise Bad("no field")
        if isinstance(t, Tup):
            for c in t.comps:
                if c.name == e[2]:
                    return c.ty
            raise Bad("no field")
        raise Bad("field access to %s" % (t,))
    if k == "index":
        t = typ(e[1])
        if not isinstance(t, Arr):
            raise Bad("index of non-array")
        want(typ(e[2]), ("Integer",))
        return t.elem
    if k == "un":
        t = typ(e[2])
        if e[1] == "not":
            want(t, ("Boolean",))
            return "Boolean"
        want(t, NUM)
        return t
    if k == "bin":
        return typ_bin(e)
    if k == "range":
        t = typ(e[1])
        want(t, NUM)
        want(typ(e[2]), (t,))
        want(typ(e[3]), (t,))
        return "Boolean"
    if k == "in":
        return typ_in(e)
    if k == "cond":
        for c, _ in e[1]:
            want(typ(c), ("Boolean",))
        t = typ(e[1][0][1])
        if t is None:
            raise Bad("null")
        for x in [a for _, a in e[1][1:]] + [e[2]]:
            t2 = typ(x)
            if t2 is None:
                raise Bad("null")
            if t2 is not t:
                if (isinstance(t, (Rec, Uni)) and
                        isinstance(t2, (Rec, Uni))) or \
                   (t in STR and t2 in STR) or \
                   (isinstance(t, Arr) and isinstance(t2, Arr)):
                    raise Ambiguous()
                raise Bad("branches")
        return t
    if k == "quant":
        want(typ(e[4]), ("Boolean",))
        return "Boolean"
    if k == "call":
        return typ_call(e)
    raise AssertionError(k)


def want(t, ok):
    if t is None or not isinstance(t, str) or t not in ok:
        raise Bad("type %s not in %s" % (t, ok))


def typ_bin(e):
    op, l, r = e[1:]
    a, b = typ(l), typ(r)
    if op in ("and", "or", "xor", "implies"):
        want(a, ("Boolean",))
        want(b, ("Boolean",))
        return "Boolean"
    if op in ("==", "!="):
        if a is None or b is None:
            return "Boolean"
        if isinstance(a, (Rec, Uni)) and isinstance(b, (Rec, Uni)):
            if not any(x.is_a(y) or y.is_a(x)
                       for x in members(a) for y in members(b)):
                raise Bad("unrelated records")
            return "Boolean"
        if a is b or (isinstance(a, str) and a == b):
            return "Boolean"
        if (isinstance(a, Arr) and isinstance(b, Arr)) or \
           (a in STR and b in STR):
            raise Ambiguous()
        raise Bad("equality of different types")
    if op in ("<", "<=", ">", ">="):
        want(a, NUM)
        want(b, (a,))
        return "Boolean"
    if op == "+" and a in STR:
        want(b, STR)
        return "String"
    if op in ("+", "-", "*", "/"):
        want(a, NUM)
        want(b, (a,))
        return a
    if op == "%":
        want(a, ("Integer",))
        want(b, ("Integer",))
        return a
    if op == "**":
        want(a, NUM)
        want(b, ("Integer",))
        if static(r) < 0:
            raise Bad("negative exponent")
        if static(r) > 64:
            raise Ambiguous()      # not worth the time
        return a
    raise AssertionError(op)


def static(e):
    try:
        return Ev(None, None).value(e)
    except RunErr as err:
        raise Bad("static: %s" % err) from err


def typ_in(e):
    a, b = typ(e[1]), typ(e[2])
    if b in STR:
        want(a, STR)
        return "Boolean"
    if not isinstance(b, Arr):
        raise Bad("membership")
    el = b.elem
    if a is None:
        raise Bad("null")
    if a is el or (isinstance(a, str) and a == el):
        return "Boolean"
    if isinstance(el, (Rec, Uni)) and isinstance(a, (Rec, Uni)):
        if isinstance(el, Rec) and isinstance(a, Rec) and \
           (a.is_a(el) or el.is_a(a)):
            return "Boolean"
        raise Ambiguous()
    if el in STR and a in STR:
        raise Ambiguous()
    raise Bad("membership type")


def typ_call(e):
    f, args = e[1], e[2]
    ar = FUNCTIONS[f]
    ts = [typ(a) for a in args]
    if ar is not None and len(args) != ar:
        raise Bad("arity")
    if f == "oneof":
        if not args:
            raise Bad("arity")
        for t in ts:
            want(t, ("Boolean",))
        return "Boolean"
    if f == "len":
        if not isinstance(ts[0], Arr):
            want(ts[0], STR)
        return "Integer"
    if f in ("Integer", "Decimal"):
        want(ts[0], NUM)
        return f
    want(ts[0], STR)
    want(ts[1], STR)
    if f == "matches":
        try:
            re.compile(static(args[1]))
        except re.error as err:
            raise Bad("regex") from err
    return "Boolean"


# -- evaluation -------------------------------------------------------------

class EnumV:
    def __init__(self, en, lit):
        self.en, self.lit = en, lit

    def __eq__(self, other):
        return isinstance(other, EnumV) and self.en is other.en and \
            self.lit == other.lit

    def __hash__(self):
        return hash(self.lit)

    def __repr__(self):
        return "%s.%s" % (self.en.name, self.lit)


def conv(v):
    """prog.Val -> value"""
    if v is None or v.kind == "null":
        return None
    if v.kind == "enum":
        return EnumV(v.ty, v.v)
    if v.kind == "arr":
        return [conv(x) for x in v.v]
    if v.kind == "tup":
        return {n: conv(x) for n, x in v.v.items()}
    return v.v          # int, Fraction, bool, str, Obj


def fields(o):
    rv = {c.name: None for c in o.typ.comps()}
    for n, v in o.vals.items():
        rv[n] = conv(v)
    for n, v in o.typ.frozen().items():
        rv[n] = conv(v)
    return rv


def trunc_rem(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return a - b * q


def round_away(q):
    n = (abs(q) * 2 + 1) // 2
    return int(n) if q >= 0 else -int(n)


class Ev:
    def __init__(self, ctx, stats=None):
        self.ctx = ctx
        self.vars = {}
        self.stats = stats if stats is not None else {}

    def hit(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def nn(self, e):
        v = self.value(e)
        if v is None:
            raise RunErr("null operand")
        return v

    def value(self, e):
        k = e[0]
        if k == "lit":
            return e[2]
        if k == "null":
            return None
        if k == "enum":
            return EnumV(e[1], e[2])
        if k == "name":
            if self.ctx is None:
                raise RunErr("not static")
            if isinstance(e[1], Var):
                return self.vars[e[1]]
            return self.ctx[e[1].name]
        if k == "field":
            p = self.value(e[1])
            if p is None:
                raise RunErr("null dereference")
            if isinstance(p, Obj):
                self.hit("deref")
                if isinstance(typ(e[1]), Uni):
                    for c in p.typ.comps():
                        if c.name == e[2] and c.ty != typ(e):
                            # unrelated field of an extension
                            raise Ambiguous()
                return fields(p).get(e[2])
            self.hit("tuple field")
            return p[e[2]]
        if k == "index":
            a = self.nn(e[1])
            i = self.nn(e[2])
            if i < 0:
                raise RunErr("index low")
            if i >= len(a):
                raise RunErr("index high")
            self.hit("index")
            return a[i]
        if k == "un":
            v = self.nn(e[2])
            if e[1] == "not":
                return not v
            if e[1] == "abs":
                return abs(v)
            return -v if e[1] == "-" else v
        if k == "bin":
            return self.bin(e)
        if k == "range":
            x = self.nn(e[1])
            a = self.nn(e[2])
            try:
                b = self.nn(e[3])
            except RunErr:
                if not a <= x:
                    raise Ambiguous() from None
                raise
            self.hit("range")
            return a <= x and x <= b
        if k == "in":
            x = self.nn(e[1])
            c = self.nn(e[2])
            self.hit("in")
            if isinstance(c, str):
                return c.find(x) >= 0
            return any(same(x, y) for y in c)
        if k == "cond":
            for c, x in e[1]:
                if self.nn(c):
                    return self.value(x)
            return self.value(e[2])
        if k == "quant":
            return self.quant(e)
        if k == "call":
            return self.call(e[1], e[2])
        raise AssertionError(k)

    def bin(self, e):
        op = e[1]
        if op in ("==", "!="):
            r = same(self.value(e[2]), self.value(e[3]))
            return r if op == "==" else not r
        l = self.nn(e[2])
        if op == "and" and l is False:
            return False
        if op == "or" and l is True:
            return True
        if op == "implies" and l is False:
            return True
        r = self.nn(e[3])
        if op in ("and", "or", "implies"):
            return r
        if op == "xor":
            return l is not r
        if op == "<":
            return l < r
        if op == "<=":
            return not r < l
        if op == ">":
            return r < l
        if op == ">=":
            return not l < r
        if op == "+":
            return l + r
        if op == "-":
            return l - r
        if op == "*":
            return l * r
        if op == "/":
            if r == 0:
                raise RunErr("division by zero")
            if isinstance(l, int):
                self.hit("int division")
                q = Fraction(l, r)
                return q.numerator // q.denominator
            return Fraction(l) / r
        if op == "%":
            if r == 0:
                raise RunErr("division by zero")
            self.hit("remainder")
            return trunc_rem(l, r)
        if op == "**":
            rv = l.__class__(1)
            for _ in range(r):
                rv = rv * l
            if isinstance(rv, int) and rv.bit_length() > 3000 or \
               isinstance(rv, Fraction) and \
               rv.numerator.bit_length() > 3000:
                raise Ambiguous()
            return rv
        raise AssertionError(op)

    def quant(self, e):
        _, univ, var, comp, body = e
        if self.ctx is None:
            raise RunErr("not static")
        arr = self.ctx[comp.name]
        if arr is None:
            raise RunErr("null array")
        res = None
        for x in arr:
            self.vars[var] = x
            if res is None:
                if self.nn(body) is not univ:
                    res = not univ
            else:
                try:
                    self.nn(body)
                except RunErr:
                    raise Ambiguous() from None
        self.vars.pop(var, None)
        if arr:
            self.hit("quantifier")
        return univ if res is None else res

    def call(self, f, args):
        v = [self.nn(a) for a in args]
        self.hit(f)
        if f == "len":
            return len(v[0])
        if f == "startswith":
            return v[0][:len(v[1])] == v[1]
        if f == "endswith":
            return v[1] == "" or v[0][-len(v[1]):] == v[1]
        if f == "matches":
            return re.match(v[1], v[0]) is not None
        if f == "oneof":
            return sum(1 for x in v if x) == 1
        if f == "Integer":
            return round_away(v[0]) if isinstance(v[0], Fraction) else v[0]
        if f == "Decimal":
            return Fraction(v[0])
        raise AssertionError(f)


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, Obj) or isinstance(b, Obj):
        return a is b
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return all(same(a[k], b[k]) for k in a)
    return a == b


def judge(toks, env, enums, ctxs, stats=None, pkgs=None, taken=()):
    """Decide a check expression given as tokens.
    -> ("bad", why) or ("ok", [True | False | "error" per context])"""
    try:
        e = P(toks, env, enums, pkgs, taken).all()
        if typ(e) != "Boolean":
            return ("bad", "not Boolean")
    except Bad as err:
        return ("bad", str(err))
    rv = []
    for ctx in ctxs:
        try:
            v = Ev(ctx, stats).value(e)
            rv.append("error" if v is None else v)
        except RunErr as err:
            rv.append("error")
            if stats is not None:
                k = "error: " + str(err)
                stats[k] = stats.get(k, 0) + 1
    return ("ok", rv)


# -- environments -----------------------------------------------------------

STRS = ["", "a", "ab", "foo", "foobar", "bar", "o", "a.b", "Foo", "A", "a b"]
LINES = ["a\nb", "foo\nbar", "x\n\nfoo", "a b\na"]
WIDE = ["\u00e9", "\u00c9a", "a\u00e9", "\U0001F600b", "\u65e5\u672c", "\u0663",
        "a\u00a0b"]
WIDE_REGEX = ["^\\w\\w", "^\\w+$", "\\W", "\\d", "^..$", "\\s", "\u00e9", "^.b",
              "[^a-z]"]
REGEX = ["a", "^foo$", "fo+", ".*bar$", "[ab]*", "x|a", "(fo)+o?", "\\w+$",
         "", "a.b", "[^f]", "b", "^a$", "a\\s+b", "(foo|x)..?(f|b)",
         "[A-Z]", "A|F", "a b", "^.*b", "a.*a$"]


def big_int(R):
    """an integer beyond what a float or a machine word can hold"""
    n = R.choice([2 ** 53, 2 ** 63, 2 ** 64, 10 ** 18, 10 ** 25, 3 * 10 ** 30])
    n = n * R.weighted((4, 1), (1, 3), (1, 7)) + R.int(-9, 9)
    return -n if R.bool(40) else n


def big_dec(R):
    """a decimal with more digits than a float can hold"""
    k = R.int(0, 2)
    if k == 0:
        d = R.int(1, 3)
        n = big_int(R) * 10 ** d + R.choice([0, 5, 5, 4, -5]) * 10 ** (d - 1)
    elif k == 1:
        d = R.int(13, 30)
        n = R.int(-20, 20)
    else:
        d = R.int(17, 24)
        n = R.int(-10 ** 25, 10 ** 25)
    return Fraction(n, 10 ** d)


class EnvWorld(World):
    """A package with a record type R_T (components drawn from a menu) and
    helper types; the checks go to R_T."""

    def __init__(self, R, n_obj=1, opt_pct=30, kinds=None, inherit=True,
                 freeze=True, second=0, big=0,
                 wide=False):  # pylint: disable=super-init-not-called
        self.R = R
        self.big = big
        # characters beyond ASCII, and arrays of more than a few elements
        self.wide = wide
        self.opts = Opts(sections=False)
        self.objs = []
        self.names = {}
        p = Pkg("Main", True)
        self.pkgs = [p]
        self.pkg = p
        self.E = Enum(p, "E_T", ["QM", "A", "B"])
        self.F = Enum(p, "F_T", ["A", "D"])
        self.T = Tup(p, "Tup_T")
        self.T.comps = [Comp("tx", "Integer", False, self.T),
                        Comp("ty", R.choice(["Integer", self.E]),
                             R.bool(40), self.T)]
        self.tuple_tail(self.T)
        self.G = Tup(p, "Gen_T")
        self.G.comps = [Comp("gp", "Integer", False, self.G),
                        Comp("gq", R.choice(["String", "Boolean"]), False,
                             self.G)]
        if R.bool(25):
            self.G.comps.append(Comp("gt", self.T, False, self.G))
        self.B = Rec(p, "Base_T")
        self.B.own = [Comp("n", "Integer", False, self.B),
                      Comp("s", "String", True, self.B)]
        if R.bool(30):
            self.B.own.append(Comp("nx", self.B, True, self.B))
        if R.bool(25):
            self.B.own.append(Comp("na", Arr("Integer", 0, None), False,
                                   self.B))
        self.X = Rec(p, "Ext_T")
        self.X.parent = self.B
        self.X.own = [Comp("m", "Integer", True, self.X)]
        self.Y = None
        if R.bool(25):
            self.Y = Rec(p, "Low_T")
            self.Y.parent = self.X
            self.Y.own = [Comp("q", "Integer", R.bool(), self.Y)] \
                if R.bool() else []
        self.O = Rec(p, "Oth_T")
        self.O.own = [Comp("n", R.choice(["Integer", "String"]), False,
                           self.O),
                      Comp("z", "Integer", R.bool(), self.O)]
        for t in (self.B, self.O):
            if R.bool(20):
                t.own.append(Comp("e", R.choice([self.E, self.F, self.T]),
                                  R.bool(30), t))
        self.rec = Rec(p, "Main_T")
        par = None
        p.types = [self.E, self.F, self.T, self.G, self.B, self.X, self.O]
        if self.Y:
            p.types.append(self.Y)
        self.aux = None
        if second and R.bool(second):
            self.second_package()
        if inherit and R.bool(30):
            par = Rec(p, "Par_T")
            self.rec.parent = par
            p.types.append(par)
        p.types.append(self.rec)
        menu = self.menu(kinds)
        # two components of everything picked, to have partners
        n = R.int(3, 7)
        pre = 0
        for ty in R.sample(menu, n):
            for _ in range(R.weighted((2, 1), (3, 2))):
                pre += 1
                tt = ty()
                owner = par if par and R.bool(40) else self.rec
                owner.own.append(Comp("c%u" % pre, tt, R.bool(opt_pct),
                                      owner))
        self.nobj = R.int(1, 4)
        for i in range(self.nobj):
            t = R.choice([self.B, self.X, self.O] +
                         ([self.Y] if self.Y else [])) if i else self.B
            o = Obj(p, "h%u" % (i + 1), t)
            self.objs.append(o)
        need = {self.B: 0, self.X: 0, self.O: 0, self.Y: 0}
        for o in self.objs:
            need[o.typ] += 1
        for t in (self.X, self.O, self.Y):
            if t and not need[t]:
                self.objs.append(Obj(p, "k%s" % t.name[0], t))
        if self.aux:
            # same name as an object of the main package
            self.objs.append(Obj(self.aux, "h1", self.B2))
        self.compute_instantiable()
        for o in list(self.objs):
            self.fill(o)
        self.mains = []
        if freeze:
            for c in self.rec.comps():
                if R.bool(8) and self.can_value(c.ty, None) and \
                   (freeze is True or isinstance(c.ty, (str, Enum))):
                    self.rec.freezes[c.name] = self.gen_value(c.ty, None, 0)
        for i in range(n_obj):
            o = Obj(p, "main_%u" % (i + 1), self.rec)
            self.mains.append(o)
        for o in self.mains:
            self.fill(o)
        self.objs += self.mains
        self.env = {c.name: c for c in self.rec.comps()}
        self.enums = {"E_T": self.E, "F_T": self.F}
        self.taken = {t.name for t in p.types} | {"Main"}
        self.epkgs = {"Main": self.enums}
        if self.aux:
            self.taken.add("Aux")
            self.epkgs["Aux"] = {"E_T": self.E2}

    def tuple_tail(self, t):
        """separators, and sometimes a third field"""
        R = self.R
        if R.bool(30):
            t.comps.append(Comp("tz", R.choice(["Integer", "String"]),
                                t.comps[1].opt or R.bool(40), t))
        t.seps = [R.weighted((3, "@"), (1, ":"), (1, ";"), (1, "w"))
                  for _ in t.comps[1:]]

    def second_package(self):
        """A package with types that are called like those of the main one"""
        R = self.R
        q = self.aux = Pkg("Aux", True)
        self.pkgs.append(q)
        self.E2 = Enum(q, "E_T", R.choice([["QM", "A", "B"], ["A", "C"]]))
        self.T2 = Tup(q, "Tup_T")
        self.T2.comps = [Comp("tx", "Integer", False, self.T2),
                         Comp("ty", R.choice(["Integer", self.E2]),
                              R.bool(40), self.T2)]
        self.tuple_tail(self.T2)
        self.B2 = Rec(q, "Base_T")
        self.B2.own = [Comp("n", R.choice(["Integer", "String"]), False,
                            self.B2),
                       Comp("s", "String", True, self.B2)]
        if R.bool(60):
            # fields of different types with the same name
            self.B.own = [c for c in self.B.own if c.name != "e"]
            for t, f in R.choice([[(self.B, self.E), (self.B2, self.E2)],
                                  [(self.B, self.T), (self.B2, self.T2)]]):
                t.own.append(Comp("e", f, R.bool(30), t))
        q.types = [self.E2, self.T2, self.B2]

    def enum_ref(self, R, en):
        if en.pkg is self.aux:
            return ["Aux", ".", en.name]
        return (["Main", "."] if R.bool(10) else []) + [en.name]

    def menu(self, kinds):
        R = self.R

        def arr(el):
            def f():
                lo = R.weighted((4, 0), (1, 1))
                hi = R.weighted((3, None), (1, 3), (1, 4))
                return Arr(el() if callable(el) else el, lo, hi)
            return f

        def uni():
            if self.Y and R.bool(40):
                return Uni(R.choice([[self.Y, self.O], [self.O, self.Y],
                                     [self.B, self.Y], [self.Y]]))
            return Uni(R.choice([[self.B, self.O], [self.X, self.O],
                                 [self.B], [self.O, self.X, self.B]]))

        m = {"int": [lambda: "Integer"], "dec": [lambda: "Decimal"],
             "bool": [lambda: "Boolean"], "str": [lambda: "String"],
             "mk": [lambda: "Markup_String"], "enum": [lambda: self.E],
             "enum2": [lambda: self.F],
             "tup": [lambda: self.T, lambda: self.G],
             "rec": [lambda: self.B, lambda: self.X, lambda: self.O],
             "uni": [uni],
             "arr": [arr("Integer"), arr("String"), arr("Boolean"),
                     arr("Decimal"), arr(lambda: self.E),
                     arr(lambda: self.T), arr(lambda: self.B), arr(uni),
                     arr(lambda: self.X), arr("Markup_String"),
                     arr(lambda: self.G)]}
        if self.Y:
            m["rec"].append(lambda: self.Y)
        if self.aux:
            m["enum"] += [lambda: self.E2] * 2
            m["tup"] += [lambda: self.T2]
            m["rec"] += [lambda: self.B2]
            m["uni"] += [lambda: Uni([self.B, self.B2]),
                         lambda: Uni([self.B2, self.B]),
                         lambda: Uni([self.B]), lambda: Uni([self.B2])]
            m["arr"] += [arr(lambda: self.E2), arr(lambda: self.E),
                         arr(lambda: self.T2), arr(lambda: self.B2)]
        rv = []
        for k in (kinds or ["int", "int", "dec", "bool", "str", "mk", "enum",
                            "tup", "rec", "uni", "arr", "arr"]):
            rv += m[k]
        return rv

    def new_obj(self, typ):
        raise prog.Reject()

    def pick_ref(self, ty, pkgs):
        c = [o for o in self.candidates(ty, pkgs)]
        if not c:
            raise prog.Reject()
        return self.R.choice(c)

    def gen_value(self, ty, pkgs, depth):
        R = self.R
        if self.big and ty in ("Integer", "Decimal") and R.bool(self.big):
            return Val("int", big_int(R), ty) if ty == "Integer" else \
                Val("dec", big_dec(R), ty)
        if ty == "Integer":
            return Val("int", R.int(-4, 6) if R.bool(92)
                       else R.int(-1000, 1000), ty)
        if ty == "Decimal":
            return Val("dec", Fraction(R.int(-25, 25),
                                       R.choice([1, 2, 4, 10])), ty)
        if ty in STR:
            if self.wide and R.bool(20):
                return Val("str", R.choice(WIDE), ty)
            return Val("str", R.choice(STRS if R.bool(85) else LINES), ty)
        if self.wide and isinstance(ty, Arr) and ty.hi is None and \
           R.bool(15) and self.can_value(ty.elem, pkgs):
            return Val("arr", [self.gen_value(ty.elem, pkgs, depth + 1)
                               for _ in range(R.int(7, 14))], ty)
        return World.gen_value(self, ty, pkgs, depth)

    def judge(self, toks, stats=None, ctxs=None):
        if ctxs is None:
            ctxs = [fields(o) for o in self.mains]
        return judge(toks, self.env, self.enums, ctxs, stats, self.epkgs,
                     self.taken)

    def files(self, checks, fancy=False, reparse=None):
        """checks: token lists with severity and message:
        (toks, severity or None, message, details or None, anchor or None)"""
        R = self.R
        w = Writer(R, self.pkg, fancy)
        for t in self.pkg.types:
            w.type_decl(t)
        if checks:
            w.t("checks", "Main_T", "{")
            w.nl()
            for toks, sev, msg, det, anchor in checks:
                w.t(*toks)
                w.t(",")
                if sev:
                    w.t(sev)
                w.t('"' + msg + '"')
                if det is not None:
                    w.t(",", '"' + det + '"')
                if anchor:
                    w.t(",", anchor)
                w.nl()
            w.t("}")
            w.nl()
        files = {"main.rsl": w.text(imports=[self.aux] if self.aux else [])}
        if self.aux:
            w = Writer(R, self.aux, fancy)
            for t in self.aux.types:
                w.type_decl(t)
            files["second.rsl"] = w.text()
        for p in self.pkgs:
            w = Writer(R, p, fancy)
            for o in self.objs:
                if o not in self.mains and o.pkg is p:
                    w.obj(o)
            files["aux.trlc" if p is self.pkg else "second.trlc"] = w.text()
        for o in self.mains:
            w = Writer(R, self.pkg, fancy)
            w.obj(o)
            files[o.name + ".trlc"] = w.text()
        return files


class RecView:
    """What a check block for a record or tuple type can see, for a type of
    an arbitrary World."""

    def __init__(self, world, rec, pkg=None):
        self.world, self.rec = world, rec
        self.pkg = pkg or rec.pkg
        comps = rec.comps() if isinstance(rec, Rec) else rec.comps
        self.env = {c.name: c for c in comps}
        self.enums = {t.name: t for t in self.pkg.types if t.k == "enum"}
        self.epkgs = {p.name: {t.name: t for t in p.types if t.k == "enum"}
                      for p in [self.pkg] + self.pkg.imports}
        self.taken = {t.name for t in self.pkg.types} | \
            {p.name for p in world.pkgs}
        self.mains = [o for o in world.objs if isinstance(rec, Rec) and
                      o.typ.is_a(rec)]

    def enum_ref(self, R, en):
        if en.pkg is self.pkg and not R.bool(10):
            return [en.name]
        if en.pkg is self.pkg or en.pkg in self.pkg.imports:
            return [en.pkg.name, ".", en.name]
        return None

    def judge(self, toks, ctxs, stats=None):
        return judge(toks, self.env, self.enums, ctxs, stats, self.epkgs,
                     self.taken)


# -- generator --------------------------------------------------------------

class Gen:
    """Type directed generator of token lists.  Levels: 0 expression,
    1 relation, 2 simple, 3 term, 4 factor, 5 primary.  gen() returns
    (level, toks): the token list parses at that level or above."""

    def __init__(self, R, world, null_pct=6, pin=False):
        self.R, self.w = R, world
        self.wide = getattr(world, "wide", False)
        self.vars = []
        self.null_pct = null_pct
        self.nvar = 0
        self.conflicts = False
        self.ctx = fields(world.mains[0]) if world.mains else None

    # names with a type satisfying a predicate
    def paths(self, pred, depth=2):
        rv = []
        for v in self.vars:
            self.expand([v.name], v.ty, False, pred, rv, depth)
        for c in self.w.env.values():
            self.expand([c.name], c.ty, c.opt, pred, rv, depth)
        return rv

    def expand(self, toks, ty, opt, pred, rv, depth):
        if pred(ty):
            rv.append((toks, opt, ty))
        if depth <= 0:
            return
        if isinstance(ty, Tup):
            for c in ty.comps:
                self.expand(toks + [".", c.name], c.ty, opt or c.opt, pred,
                            rv, depth - 1)
        elif isinstance(ty, Rec):
            for c in ty.comps():
                self.expand(toks + [".", c.name], c.ty, opt or c.opt, pred,
                            rv, depth - 1)
        elif isinstance(ty, Uni):
            for n, (c, cnt, conflict) in union_fields(ty).items():
                if not conflict or self.conflicts:
                    self.expand(toks + [".", n], c.ty,
                                opt or c.opt or cnt < len(ty.members),
                                pred, rv, depth - 1)
        elif isinstance(ty, Arr):
            self.expand(toks + [None], ty.elem, True, pred, rv, depth - 1)

    def regex(self):
        return self.R.choice(WIDE_REGEX if self.wide and self.R.bool(20)
                             else REGEX)

    def fill_index(self, toks, d):
        out = []
        for t in toks:
            if t is None:
                out += ["["]
                if self.wide and self.R.bool(10):
                    out += [str(self.R.int(5, 13))]
                elif self.R.bool(70):
                    out += [str(self.R.weighted((5, 0), (3, 1), (1, 2),
                                                (1, 4)))]
                else:
                    out += self.at(0, "Integer", d - 1)
                out += ["]"]
            else:
                out.append(t)
        return out

    def name_of(self, pred, d):
        cands = self.paths(pred, 2 if d > 0 else 1)
        risky = self.R.bool(self.null_pct)
        good = [c for c in cands if c[1] == risky] or cands
        if not good:
            return None
        toks, _, ty = self.R.choice(good)
        return self.fill_index(toks, d), ty

    def at(self, level, ty, d):
        """token list for an expression of type ty usable at level"""
        lv, toks = self.gen(ty, d)
        if lv < level or (self.R.bool(6)):
            return ["("] + toks + [")"]
        return toks

    def lit(self, ty):
        R = self.R
        big = getattr(self.w, "big", 0)
        if big and ty in ("Integer", "Decimal") and R.bool(big):
            return (5, prog.int_text(R, abs(big_int(R)), False)
                    if ty == "Integer" else
                    prog.dec_text(R, abs(big_dec(R)), False))
        if ty == "Integer":
            return (5, [str(R.int(0, 6) if R.bool(90) else
                            R.int(0, 100000))])
        if ty == "Decimal":
            return (5, ["%u.%u" % (R.int(0, 5),
                                   R.choice([0, 5, 25, 75, 1]))])
        if ty == "Boolean":
            return (5, [R.choice(["true", "false"])])
        if ty in STR:
            return (5, ['"%s"' % R.choice(
                WIDE if self.wide and R.bool(15) else STRS)])
        if isinstance(ty, Enum):
            pre = self.w.enum_ref(R, ty)
            if pre is None:
                return None
            return (5, pre + [".", R.choice(ty.lits)])
        return None

    def leaf(self, ty, d):
        R = self.R
        n = None
        if R.bool(70) or not (isinstance(ty, str) or isinstance(ty, Enum)):
            n = self.name_of(lambda t: t is ty or
                             (isinstance(t, str) and t == ty), d)
        if n is not None:
            return (5, n[0])
        if ty == "Markup_String":
            ty = "String"
        l = self.lit(ty)
        if l is None:
            raise prog.Reject()
        return l

    def paren(self, toks):
        return (5, ["("] + toks + [")"])

    def cond(self, ty, d):
        toks = ["if"] + self.at(0, "Boolean", d - 1) + ["then"] + \
            self.at(0, ty, d - 1)
        for _ in range(self.R.weighted((4, 0), (2, 1), (1, 2))):
            toks += ["elsif"] + self.at(0, "Boolean", d - 1) + ["then"] + \
                self.at(0, ty, d - 1)
        toks += ["else"] + self.at(0, ty, d - 1)
        return self.paren(toks)

    def gen(self, ty, d):
        R = self.R
        if d <= 0 or R.bool(12):
            return self.leaf(ty, d)
        if R.bool(5) and ty != "Markup_String":
            return self.cond(ty, d)
        if ty == "Boolean":
            return self.g_bool(d)
        if ty in NUM:
            return self.g_num(ty, d)
        if ty == "String":
            if R.bool(45):
                toks = self.at(3, self.any_str(), d - 1)
                for _ in range(R.int(1, 2)):
                    toks = toks + ["+"] + self.at(3, self.any_str(), d - 1)
                return (2, toks)
        return self.leaf(ty, d)

    def any_str(self):
        return self.R.weighted((4, "String"), (1, "Markup_String"))

    def g_num(self, ty, d):
        R = self.R
        k = R.weighted((4, "add"), (4, "mul"), (2, "neg"), (2, "abs"),
                       (2, "pow"), (2, "conv"), (2, "leaf"),
                       (2 if ty == "Integer" else 0, "len"),
                       (3 if ty == "Integer" else 0, "rem"))
        if k == "add":
            pre = [R.choice("-+")] if R.bool(15) else []
            toks = pre + self.at(3, ty, d - 1)
            for _ in range(R.int(1, 2)):
                toks = toks + [R.choice("-+")] + self.at(3, ty, d - 1)
            return (2, toks)
        if k in ("mul", "rem"):
            toks = self.at(4, ty, d - 1)
            ops = ["/", "*"] + (["%"] if ty == "Integer" else [])
            for _ in range(R.int(1, 2)):
                op = "%" if k == "rem" and R.bool(70) else R.choice(ops)
                toks = toks + [op]
                toks += self.at(4, ty, d - 1)
            return (3, toks)
        if k == "neg":
            return (2, [R.choice("--+")] + self.at(3, ty, d - 1))
        if k == "abs":
            return (4, ["abs"] + self.at(5, ty, d - 1))
        if k == "pow":
            ex = R.weighted((6, [str(R.int(0, 4))]),
                            (1, ["(", "1", "+", "1", ")"]),
                            (1, ["(", "+", "2", ")"]),
                            (1 if getattr(self.w, "big", 0) else 0,
                             [str(R.int(5, 40))]))
            return (4, self.at(5, ty, d - 1) + ["**"] + ex)
        if k == "conv":
            src = R.choice(["Integer", "Decimal", "Decimal"])
            return (5, [ty, "("] + self.at(0, src, d - 1) + [")"])
        if k == "len":
            n = self.name_of(lambda t: isinstance(t, Arr), d) \
                if R.bool() else None
            if n is None:
                return (5, ["len", "("] + self.at(0, self.any_str(), d - 1) +
                        [")"])
            return (5, ["len", "("] + n[0] + [")"])
        return self.leaf(ty, d)

    def some_type(self):
        """a type for equality"""
        R = self.R
        if R.bool(35):
            return R.choice(["Integer", "Decimal", "Boolean", "String"])
        ps = self.paths(lambda t: True, 1)
        if not ps:
            return "Integer"
        return R.choice(ps)[2]

    def g_bool(self, d):
        R = self.R
        k = R.weighted((3, "and"), (3, "or"), (2, "xor"), (2, "implies"),
                       (6, "cmp"), (6, "eq"), (3, "null"), (4, "in"),
                       (3, "range"), (2, "not"), (5, "quant"),
                       (4, "strfun"), (2, "oneof"), (2, "leaf"),
                       (2, "guard"))
        if k in ("and", "or"):
            toks = self.at(1, "Boolean", d - 1)
            for _ in range(R.int(1, 2)):
                toks = toks + [k] + self.at(1, "Boolean", d - 1)
            return (0, toks)
        if k in ("xor", "implies"):
            return (0, self.at(1, "Boolean", d - 1) + [k] +
                    self.at(1, "Boolean", d - 1))
        if k == "not":
            return (4, ["not"] + self.at(5, "Boolean", d - 1))
        if k == "cmp":
            ty = R.choice(NUM)
            return (1, self.at(2, ty, d - 1) +
                    [R.choice(["<", "<=", ">", ">="])] +
                    self.at(2, ty, d - 1))
        if k == "eq":
            ty = self.some_type()
            op = R.choice(["==", "!="])
            l = self.at(2, ty, d - 1)
            if isinstance(ty, (Rec, Uni)):
                n = self.name_of(lambda t: isinstance(t, (Rec, Uni)) and any(
                    x.is_a(y) or y.is_a(x) for x in members(t)
                    for y in members(ty)), d)
                r = n[0] if n else self.at(2, ty, d - 1)
            else:
                r = self.at(2, "String" if ty == "String" else ty, d - 1)
            return (1, l + [op] + r)
        if k == "null":
            save, self.null_pct = self.null_pct, 75
            n = self.name_of(lambda t: True, d)
            self.null_pct = save
            if n is None:
                return self.leaf("Boolean", d)
            pair = [n[0], ["null"]]
            if R.bool(20):
                pair.reverse()
            return (1, pair[0] + [R.choice(["==", "!="])] + pair[1])
        if k == "in":
            neg = ["not"] if R.bool(30) else []
            if R.bool(35):
                return (1, self.at(2, self.any_str(), d - 1) + neg + ["in"] +
                        self.at(2, self.any_str(), d - 1))
            n = self.name_of(lambda t: isinstance(t, Arr), d)
            if n is None:
                return (1, self.at(2, "String", d - 1) + neg + ["in"] +
                        self.at(2, "String", d - 1))
            el = n[1].elem
            return (1, self.at(2, el, d - 1) + neg + ["in"] + n[0])
        if k == "range":
            ty = R.choice(NUM)
            neg = ["not"] if R.bool(20) else []
            return (1, self.at(2, ty, d - 1) + neg + ["in"] +
                    self.at(2, ty, d - 1) + [".."] + self.at(2, ty, d - 1))
        if k == "quant":
            arrs = [c for c in self.w.env.values() if isinstance(c.ty, Arr)]
            arrs = [c for c in arrs if c.opt == R.bool(self.null_pct)] or arrs
            if not arrs:
                return self.leaf("Boolean", d)
            c = R.choice(arrs)
            self.nvar += 1
            v = Var("v%u" % self.nvar if R.bool(85) or self.vars else "v0",
                    c.ty.elem)
            self.vars.append(v)
            body = self.at(0, "Boolean", d - 1)
            self.vars.pop()
            return self.paren([R.choice(["forall", "exists"]), v.name, "in",
                               c.name, "=>"] + body)
        if k == "strfun":
            f = R.choice(["startswith", "endswith", "matches"])
            a = self.at(0, self.any_str(), d - 1)
            if f == "matches":
                b = ['"%s"' % self.regex()]
                if R.bool(10):
                    b += ["+", '"%s"' % R.choice(REGEX)]
            else:
                b = self.at(0, self.any_str(), d - 1)
            return (5, [f, "("] + a + [","] + b + [")"])
        if k == "oneof":
            toks = ["oneof", "("]
            for i in range(R.int(1, 4)):
                if i:
                    toks.append(",")
                toks += self.at(0, "Boolean", d - 1)
            return (5, toks + [")"])
        if k == "guard":
            opts = [c for c in self.w.env.values() if c.opt]
            if not opts:
                return self.leaf("Boolean", d)
            c = R.choice(opts)
            ty = c.ty
            save, self.null_pct = self.null_pct, 60
            body = self.use_of(c.name, ty, d)
            self.null_pct = save
            kk = R.int(0, 3)
            if kk == 0:
                return (0, [c.name, "!=", "null", "and"] + body)
            if kk == 1:
                return (0, [c.name, "!=", "null", "implies"] + body)
            if kk == 2:
                return (0, [c.name, "==", "null", "or"] + body)
            return self.paren(["if", c.name, "==", "null", "then",
                               R.choice(["true", "false"]), "else"] + body)
        return self.leaf("Boolean", d)

    def use_of(self, name, ty, d):
        """boolean expression (at relation level) using a component"""
        R = self.R
        if ty in NUM:
            return [name, R.choice(["<", ">=", "==", "!="])] + \
                self.at(2, ty, d - 1)
        if ty == "Boolean":
            return R.choice([[name], ["not", name]])
        if ty in STR:
            return R.choice([["len", "(", name, ")", ">", "1"],
                             ["startswith", "(", name, ",", '"a"', ")"],
                             [name, "+", '"x"', "!=", '"ax"'],
                             ['"o"', "in", name]])
        if isinstance(ty, Arr):
            return ["len", "(", name, ")", R.choice([">", "=="]),
                    str(R.int(0, 2))]
        if isinstance(ty, (Tup, Rec)):
            comps = ty.comps if isinstance(ty, Tup) else ty.comps()
            if not comps:
                return [name, "=="] + self.at(2, ty, d - 1)
            c = R.choice(comps)
            toks, t = [name, ".", c.name], c.ty
            if t == "Integer":
                return toks + [R.choice(["<", ">", "=="]), str(R.int(0, 3))]
            return toks + ["!=", "null"]
        return [name, "==" if R.bool() else "!="] + self.at(2, ty, d - 1)

    def value_tokens(self, v, ty):
        """literal tokens at level simple for a value, or None"""
        if v is None:
            return ["null"]
        if isinstance(v, bool):
            return ["true" if v else "false"]
        if isinstance(v, int):
            return (["-"] if v < 0 else []) + [str(abs(v))]
        if isinstance(v, Fraction):
            den = v.denominator
            while den % 2 == 0:
                den //= 2
            while den % 5 == 0:
                den //= 5
            if den == 1:
                return prog.dec_text(self.R, v, False)
            return None
        if isinstance(v, str):
            if '"' in v or "\n" in v or v.endswith("\\"):
                return None
            return ['"%s"' % v]
        if isinstance(v, EnumV):
            pre = self.w.enum_ref(self.R, v.en)
            return None if pre is None else pre + [".", v.lit]
        return None

    def slot(self, ty, d=1):
        """an operand (as a primary) which is often null or an error"""
        R = self.R
        k = R.weighted((6, "lit"), (5, "name"), (3, "bad"), (2, "op"))
        if k == "op" and d > 0:
            return ["("] + self.directed(ty, d - 1) + [")"]
        if k == "bad":
            if R.bool(60):
                n = self.name_of(lambda t: t == ty if isinstance(t, str)
                                 else t is ty, 0)
                opts = [c for c in self.w.env.values() if c.opt and (
                    c.ty == ty if isinstance(ty, str) else c.ty is ty)]
                if opts:
                    return [R.choice(opts).name]
                if n:
                    return n[0]
            zero = R.choice([["1", "/", "0"], ["2", "%", "(", "1", "-", "1",
                                               ")"]])
            if ty == "Integer":
                return ["("] + zero + [")"]
            if ty == "Decimal":
                return ["(", "1.5", "/", "0.0", ")"]
            if ty == "Boolean":
                return ["("] + zero + ["==", "0", ")"]
            if ty == "String":
                return ["(", "if"] + zero + ["==", "0", "then", '"a"',
                                             "else", '"b"', ")"]
        if k == "name":
            n = self.name_of(lambda t: t == ty if isinstance(t, str)
                             else t is ty, 1)
            if n:
                return n[0]
        l = self.lit("String" if ty == "Markup_String" else ty)
        if l is not None:
            if ty == "Integer":
                return [str(R.int(0, 4))]
            return l[1]
        n = self.name_of(lambda t: t is ty, 1)
        if n is None:
            raise prog.Reject()
        return n[0]

    def directed(self, ty, d=1):
        """one operation of which every operand is chosen from few values,
        nulls and errors, so that all combinations are met"""
        R = self.R

        def S(t):
            return self.slot(t, d)

        def many(t, op, lo=2, hi=3):
            rv = S(t)
            for _ in range(R.int(lo, hi) - 1):
                rv = rv + [op] + S(t)
            return rv
        if R.bool(12):
            toks = ["if"] + S("Boolean") + ["then"] + S(ty)
            for _ in range(R.int(0, 2)):
                toks += ["elsif"] + S("Boolean") + ["then"] + S(ty)
            return ["("] + toks + ["else"] + S(ty) + [")"]
        if ty in NUM:
            k = R.int(0, 5)
            if k == 0:
                return ["abs"] + S(ty)
            if k == 1:
                return S(ty) + ["**", str(R.int(0, 3))]
            if k == 2:
                return [ty, "("] + S(R.choice(NUM)) + [")"]
            if k == 3:
                return ["-"] + S(ty)
            return many(ty, R.choice(["+", "-", "*", "/"] +
                                     (["%"] if ty == "Integer" else [])))
        if ty in STR:
            return many("String", "+")
        if ty != "Boolean":
            return S(ty)
        k = R.int(0, 12)
        if k == 0:
            return many("Boolean", "and")
        if k == 1:
            return many("Boolean", "or")
        if k == 2:
            return S("Boolean") + [R.choice(["xor", "implies"])] + \
                S("Boolean")
        if k == 3:
            return ["not"] + S("Boolean")
        if k == 4:
            t = R.choice(NUM)
            return S(t) + [R.choice(["<", "<=", ">", ">="])] + S(t)
        if k == 5:
            t = self.some_type()
            return S(t) + [R.choice(["==", "!="])] + S(t)
        if k in (6, 7):
            t = R.choice(NUM)
            return S(t) + (["not"] if R.bool(20) else []) + ["in"] + S(t) + \
                [".."] + S(t)
        if k == 8:
            toks = ["oneof", "("] + S("Boolean")
            for _ in range(R.int(0, 3)):
                toks += [","] + S("Boolean")
            return toks + [")"]
        if k == 9:
            return S("String") + (["not"] if R.bool(20) else []) + ["in"] + \
                S("String")
        if k == 10:
            f = R.choice(["startswith", "endswith", "matches"])
            return [f, "("] + S("String") + [","] + (
                ['"%s"' % self.regex()] if f == "matches"
                else S("String")) + [")"]
        arrs = [c for c in self.w.env.values() if isinstance(c.ty, Arr)]
        if not arrs:
            return S("Boolean")
        c = R.choice(arrs)
        if k == 11:
            return S(c.ty.elem) + (["not"] if R.bool(20) else []) + \
                ["in", c.name]
        self.nvar += 1
        v = Var("v%u" % self.nvar, c.ty.elem)
        self.vars.append(v)
        body = self.directed("Boolean", 0) if d <= 0 or R.bool(60) else \
            self.use_of(v.name, v.ty, 1)
        self.vars.pop()
        return ["(", R.choice(["forall", "exists"]), v.name, "in", c.name,
                "=>"] + body + [")"]

    def pinned(self, ty, d):
        """-> tokens of a check comparing an expression to its value"""
        toks = self.at(2, ty, d)
        try:
            e = P(toks, self.w.env, self.w.enums, self.w.epkgs,
                  self.w.taken).all()
            t = typ(e)
            v = Ev(self.ctx).value(e)
        except (Bad, RunErr):
            return self.at(0, "Boolean", d)
        if t == "Markup_String":
            return self.at(0, "Boolean", d)
        if isinstance(v, Fraction):
            n, dd = v.numerator, v.denominator
            l = self.value_tokens(v, t)
            if l is None:
                return toks + ["==",
                               *((["-"] if n < 0 else []) +
                                 ["%u.0" % abs(n), "/", "%u.0" % dd])]
        else:
            l = self.value_tokens(v, t)
        if l is None:
            return self.at(0, "Boolean", d)
        return toks + ["=="] + l
