"""P20: linter messages are exact and advisory."""
from vlib import api, core, expr, prog, reflex, values
from vlib.api import need
from vlib.core import Reject
from vlib.prog import Arr, Mark, Rec, Uni
from checks.P15 import data

ID = "P20"
RULE = ("an accepted program with at least 3 types in which at least one "
        "issue is expected and one declaration is close to having one")
QUICK = 24000
THOROUGH = 600000


class Scan(expr.P):
    """parser which notes what the linter should say about an expression"""

    def __init__(self, *a):
        super().__init__(*a)
        self.notes = []         # (category, token index, text or None, must)

    def simple(self):
        op = self.peek()
        if op in ("+", "-"):
            at = self.i
            self.take()
            start = self.i
            t = self.term()
            l = ("un", op, t)
            if op == "-":
                multi = t[0] == "bin"
                whole = False
                if self.t[start] == "(":
                    depth = 0
                    for i in range(start, self.i):
                        depth += {"(": 1, ")": -1}.get(self.t[i], 0)
                        if depth == 0:
                            whole = i == self.i - 1
                            break
                if whole:
                    pass
                elif multi:
                    self.notes.append(["unary_minus_precedence", at, None,
                                       self.t[start] != "("])
                elif t[0] == "un":
                    self.notes.append(["unary_minus_precedence", at, None,
                                       False])
        else:
            l = self.term()
        while self.peek() in ("+", "-"):
            op = self.take()
            l = ("bin", op, l, self.term())
        return l

    def on_field(self, e, index):
        t = expr.typ(e)
        if isinstance(t, Uni):
            name = self.t[index]
            n = expr.union_fields(t)[name][1]
            if n < len(t.members):
                self.notes.append(
                    ["union_partial_field_access", index,
                     "field %s exists only in %u of %u members" %
                     (name, n, len(t.members)), True])


def weird_arrays(R, w):
    """change bounds which no value contradicts"""
    lens = {}

    def see(v):
        if v.kind == "arr":
            lens.setdefault(id(v.ty), []).append(len(v.v))
            for x in v.v:
                see(x)
        elif v.kind == "tup":
            for x in v.v.values():
                see(x)

    for o in w.objs:
        for v in o.vals.values():
            see(v)
    for t in w.records():
        for v in t.freezes.values():
            see(v)
    for t in w.records():
        for c in t.own:
            if not isinstance(c.ty, Arr) or not R.bool(60):
                continue
            ls = lens.get(id(c.ty), [])
            opts = [(0, 1), (0, 0), (1, 1), (0, 2), (1, 2)]
            opts = [(lo, hi) for lo, hi in opts
                    if all(lo <= n <= hi for n in ls)]
            if not ls:
                opts += [(3, 2), (1, 0), (9, 4)]
            if opts:
                c.ty.lo, c.ty.hi = R.choice(opts)


def gen(R):
    w = prog.build(R, max_objs=3, max_types=7)
    weird_arrays(R, w)
    exp = []        # [category, mark key, text or None, must, token index]
    near = 0
    n = 0
    blocks = {}
    for p in w.pkgs:
        for t in p.types:
            if t.k == "enum" or R.bool(40):
                continue
            view = expr.RecView(w, t)
            rows = []
            for _ in range(R.int(1, 3)):
                g = expr.Gen(R, view, null_pct=5)
                try:
                    if R.bool(40):
                        ty = R.choice(["Integer", "Integer", "Decimal"])
                        toks = ["-"] + g.at(R.choice([2, 3, 4]), ty, 2) + \
                            [R.choice(["<", ">=", "=="])] + g.at(2, ty, 1)
                    else:
                        toks = g.at(0, "Boolean", R.int(1, 3))
                    s = Scan(toks, view.env, view.enums, view.epkgs,
                             view.taken)
                    e = s.all()
                    if expr.typ(e) != "Boolean":
                        continue
                except (expr.Bad, Reject):
                    continue
                rows.append((n, toks, s.notes))
                n += 1
            if not rows:
                continue

            def blk(wr, t=t, rows=rows):
                wr.t("checks", t.name, "{")
                wr.nl()
                for i, toks, _ in rows:
                    wr.used |= {q for q in t.pkg.imports if q.name in toks}
                    wr.t(Mark(("chk", i), True), *toks)
                    wr.t(Mark(("chk", i), False), ",", "warning",
                         '"check %u"' % i)
                    wr.nl()
                wr.t("}")
                wr.nl()
            blocks[t] = [blk]
            for i, toks, notes in rows:
                exp += [[c, ["chk", i], txt, must, at]
                        for c, at, txt, must in notes]
                near += "-" in toks
    w.opts.extra["blocks"] = blocks
    w.opts.extra["markcomps"] = True
    w.opts.extra["imports"] = True
    files = prog.render(w, fancy=R.bool(50))
    for t in [t for p in w.pkgs for t in p.types]:
        n, k = near_and_expected(w, t, exp)
        near += n
        del k
    marks = {}
    for k, v in w.marks.items():
        if k[0] in ("comp", "type", "sep", "chk"):
            marks["/".join(map(str, k))] = v
    return {"files": files,
            "expect": [[c, "/".join(map(str, k)), txt, must, at]
                       for c, k, txt, must, at in exp],
            "marks": marks, "unused": {f: sorted(u) for f, u in
                                       w.unused.items()},
            "near": near, "types": sum(len(p.types) for p in w.pkgs)}


def near_and_expected(w, t, exp):
    near = 0

    def add(cat, key, txt, must=True):
        exp.append([cat, key, txt, must, None])

    def union(u, key):
        if len(u.members) == 1:
            add("union_single_type", key, "union type with a single member is"
                " equivalent to a plain record reference")
        for a in u.members:
            for b in u.members:
                if a is not b and a.is_a(b):
                    add("union_redundant_subtype", key, "%s is a subtype of"
                        " %s which is already in this union" %
                        (a.name, b.name))

    def kind(ty):
        return ty if isinstance(ty, str) else ty.name

    if t.k == "tuple" and t.seps:
        for i, s in enumerate(t.seps):
            key = ["sep", t.pkg.name, t.name, i]
            if s in ("x", "b") and t.comps[i].ty == "Integer":
                add("separator_based_literal_ambiguity", key,
                    "%s separator after integer component creates"
                    " ambiguities" % s)
            elif s in ("x", "b") and t.comps[i].ty == "Decimal":
                # the manual says integer, the linter guide both
                add("separator_based_literal_ambiguity", key, None, False)
            near += 1
    for c in t.comps if t.k == "tuple" else t.own if t.k == "record" else []:
        key = ["comp", t.pkg.name, t.name, c.name]
        ty = c.ty
        if isinstance(ty, Arr):
            near += 1
            if ty.hi is not None and ty.hi < ty.lo:
                add("impossible_array_types", key,
                    "upper bound must be at least %u" % ty.lo)
            elif ty.hi == 0:
                add("impossible_array_types", key,
                    "this array makes no sense")
            elif ty.hi == 1 and ty.lo == 1:
                add("weird_array_types", key, "array of fixed size 1 should"
                    " not be an array")
            elif ty.hi == 1:
                add("weird_array_types", key, "consider making this array an"
                    " optional %s" % kind(ty.elem)
                    if not isinstance(ty.elem, Uni) else None)
            ty = ty.elem
        if isinstance(ty, Uni):
            near += 1
            union(ty, key)
    if isinstance(t, Rec):
        key = ["type", t.pkg.name, t.name]
        if t.abstract:
            subs = [s for s in w.records() if s is not t and s.is_a(t)]
            if not subs:
                add("abstract_leaf_types", key, "abstract type %s does not"
                    " have any extensions" % t.name)
            elif all(s.abstract for s in subs):
                # extended, but still without any use
                add("abstract_leaf_types", key, None, False)
            near += 1
        if t.parent is not None and t.parent.is_final() and not t.final:
            add("clarify_final", key, "consider clarifying that this record"
                " is final")
        near += t.final
    return near, None


def check(case):
    files = case["files"]
    plain = api.process(files)
    res = api.process(files, lint=True)

    def ctx():
        return "\n%s\n%s" % (res.text, api.show(files))
    need(not [m for m in plain.msgs if m.kind == "issue"],
         "issues without linting\n%s%s", plain.text, ctx())
    need([m.raw for m in plain.msgs] ==
         [m.raw for m in res.msgs if m.kind != "issue"],
         "linting changes other messages, without:\n%s%s", plain.text, ctx())
    need((plain.stab is None) == (res.stab is None) and
         plain.mh.errors == res.mh.errors,
         "linting changes the verdict, without:\n%s%s", plain.text, ctx())
    if plain.stab is not None:
        need(values.same(data(plain.stab), data(res.stab)),
             "linting changes the data%s", ctx())
    starts = {}
    toks = {}
    for n, t in files.items():
        starts[n] = [0]
        for l in t.split("\n"):
            starts[n].append(starts[n][-1] + len(l) + 1)
        toks[n] = [x for x in reflex.lex(t)[0] if x[0] != "COMMENT"]
    issues = []
    for m in res.msgs:
        if m.kind == "issue":
            need(m.file in files and m.line and m.col, "issue without"
                 " position: %s%s", m.raw, ctx())
            issues.append((m, starts[m.file][m.line - 1] + m.col - 1))
    need(res.mh.warnings == len([m for m in res.msgs
                                 if not m.is_error()]),
         "%u warnings counted%s", res.mh.warnings, ctx())

    exp = []
    for cat, key, txt, must, at in case["expect"]:
        f, a, b = case["marks"][key]
        if at is not None:
            inside = [t for t in toks[f] if a <= t[2] < b]
            a, b = inside[at][2], inside[at][3]
        exp.append([cat, f, a, b, txt, must])
    for f, names in case["unused"].items():
        # (unused imports are only looked for in accepted programs)
        for n in names:
            pos = [t for i, t in enumerate(toks[f]) if i and
                   toks[f][i - 1][1] == "import" and t[1] == n][0]
            strings = any(t[0] == "STRING" and t[1] == n for t in toks[f])
            exp.append(["unused_imports", f, pos[2], pos[3],
                        "unused import %s" % n,
                        res.stab is not None and not strings])
    for m, off in issues:
        hit = [e for e in exp if e[0] == m.cat and e[1] == m.file and
               e[2] <= off < e[3] and (e[4] is None or
                                       m.msg.startswith(e[4]))]
        need(hit, "issue not expected (or too often): %s%s", m.raw, ctx())
        exp.remove(sorted(hit, key=lambda e: not e[5])[0])
    left = [e for e in exp if e[5]]
    need(not left, "not reported: %s%s", left, ctx())
    cats = sorted({m.cat for m, _ in issues})
    return (case["types"] >= 3 and bool(issues) and case["near"] > 0,
            "%s %u kinds" % ("ok" if res.stab is not None else "failed",
                             len(cats)))
