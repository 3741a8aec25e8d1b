"""Single edits that break exactly one rule about declarations.

Every edit is applied to one declaration of an otherwise well-formed world;
the tool must report an error inside that declaration."""
from vlib import prog, api, values, reflex
from vlib.api import need
from vlib.core import Reject
from vlib.prog import Rec, Tup, Enum, Uni, Arr, Val

UNKNOWN = ["Nope", "zz9", "Unknown_T"]


class Edit:
    def __init__(self, target, what, fn, fatal=True):
        self.target, self.what, self.fn, self.fatal = target, what, fn, fatal


def foreign(R, w, pkg, kinds):
    """a type that is not visible in pkg: its package is not imported"""
    c = [t for p in w.pkgs if p is not pkg and p not in pkg.imports
         for t in p.types if t.k in kinds]
    return R.choice(c) if c else None


def later(R, t, kinds):
    ts = t.pkg.types
    c = [x for x in ts[ts.index(t) + 1:] if x.k in kinds]
    return R.choice(c) if c else None


def bad_type(R, w, t, allow_self=False):
    """tokens naming something that is not a visible, complete type"""
    k = R.weighted((3, "unknown"), (3, "later"), (3, "foreign"),
                   (1, "pkg"), (1, "func"), (1, "null"), (2, "self"))
    if k == "unknown":
        return [R.choice(UNKNOWN)]
    if k == "later":
        x = later(R, t, ("record", "enum", "tuple"))
        if x:
            return [x.name]
    if k == "foreign":
        x = foreign(R, w, t.pkg, ("record", "enum", "tuple"))
        if x:
            return [x.pkg.name, ".", x.name]
    if k == "pkg":
        return [t.pkg.name]
    if k == "func":
        return [R.choice(["len", "startswith"])]
    if k == "self" and not allow_self:
        return [t.name]
    if k == "null":
        return ["null"]
    return [t.pkg.name, ".", R.choice(UNKNOWN)]


def ins(R, items, new):
    i = R.int(0, len(items))
    return items[:i] + [new] + items[i:]


def fresh(t):
    comps = t.comps() if isinstance(t, Rec) else t.comps
    names = {c.name for c in comps}
    return [n for n in ("zq", "yq", "xq") if n not in names]


def is_freeze(it):
    return it[0] == "freeze"


def record_edit(R, w, t):
    p = t.pkg
    ks = ["dup", "extends", "comp_type", "freeze_unknown", "qualifier",
          "name", "array", "union", "keyword", "syntax"]
    if t.is_final() and t.parent and t.parent.is_final():
        ks += ["final"] * 4
    frozen_above = sorted(t.parent.frozen()) if t.parent else []
    if t.freezes:
        ks += ["refreeze", "freeze_late", "freeze_value"]
    if frozen_above:
        ks += ["refreeze_above"] * 3
    k = R.choice(ks)
    parent_final = t.parent is not None and t.parent.is_final()

    if k == "dup":
        names = [c.name for c in t.comps()]
        if not names or parent_final:
            raise Reject()
        n = R.choice(names)
        return Edit(t, "component declared twice", lambda wr, h, i:
                    (h, i + [[n, R.choice(["Integer", "String"])]]))
    if k == "extends":
        if "abstract" in () or not t.own and not t.freezes and False:
            raise Reject()
        kk = R.int(0, 5)
        if kk == 0:
            ty = [R.choice(UNKNOWN)]
        elif kk == 1:
            c = w.visible(p, ("enum", "tuple"))
            c = [x for x in c if x.pkg is p and
                 p.types.index(x) < p.types.index(t)]
            if not c:
                raise Reject()
            ty = [R.choice(c).name]
        elif kk == 2:
            ty = [t.name]
        elif kk == 3:
            x = later(R, t, ("record",))
            if x is None:
                raise Reject()
            ty = [x.name]
        elif kk == 4:
            x = foreign(R, w, p, ("record",))
            if x is None:
                raise Reject()
            ty = [x.pkg.name, ".", x.name]
        else:
            ty = [R.choice(prog.BUILTIN)]

        def fn(wr, h, i):
            if "extends" in h:
                h = h[:h.index("extends")]
            return h + ["extends"] + ty, i
        return Edit(t, "extends %s" % " ".join(ty), fn)
    if k == "final":
        n = fresh(t)[0]
        return Edit(t, "component added to extension of final type",
                    lambda wr, h, i: (h, ins(R, i, [n, "Integer"])))
    if k == "comp_type":
        if parent_final:
            raise Reject()
        ty = bad_type(R, w, t, allow_self=True)
        n = fresh(t)[0]
        new = [n] + (["optional"] if R.bool() else []) + ty + \
            (["[", "0", "..", "*", "]"] if R.bool(20) else [])
        return Edit(t, "component of type %s" % " ".join(ty),
                    lambda wr, h, i: (h, ins(R, i, new)))
    if k == "freeze_unknown":
        n = fresh(t)[0]
        return Edit(t, "unknown component frozen",
                    lambda wr, h, i: (h, i + [["freeze", n, "=", "1"]]))
    if k == "refreeze":
        n = R.choice(sorted(t.freezes))
        return Edit(t, "component frozen twice",
                    lambda wr, h, i:
                    (h, i + [["freeze", n, "="] + wr.value(t.freezes[n])]))
    if k == "refreeze_above":
        n = R.choice(frozen_above)
        v = t.parent.frozen()[n]
        if not w.can_value(v.ty, p.imports + [p]):
            raise Reject()
        return Edit(t, "inherited frozen component frozen again",
                    lambda wr, h, i:
                    (h, i + [["freeze", n, "="] + wr.value(v)]))
    if k == "freeze_late":
        own = [n for n in t.freezes if n in [c.name for c in t.own]]
        if not own:
            raise Reject()
        n = R.choice(own)

        def fn(wr, h, i):
            f = [it for it in i if is_freeze(it) and it[1] == n]
            return h, f + [it for it in i if not (is_freeze(it) and
                                                  it[1] == n)]
        return Edit(t, "freeze before the declaration of the component", fn)
    if k == "freeze_value":
        n = R.choice(sorted(t.freezes))
        v = t.freezes[n]
        new, what, fatal = wrong_value(R, w, v.ty, p)
        if late(what) and not any(o.typ.is_a(t) for o in w.objs):
            # see known_findings.txt
            raise Reject()

        def fn(wr, h, i):
            return h, [["freeze", n, "="] + new(wr)
                       if is_freeze(it) and it[1] == n else it for it in i]
        return Edit(t, "freeze: %s" % what, fn, fatal)
    if k == "qualifier":
        q = R.choice([["abstract", "final"], ["final", "abstract"],
                      ["abstract", "abstract"], ["final", "final"],
                      ["optional"]])
        return Edit(t, "qualifier %s" % " ".join(q), lambda wr, h, i:
                    (q + h[h.index("type"):], i))
    if k == "name":
        return rename_edit(R, w, t)
    if k == "array":
        if parent_final:
            raise Reject()
        arr = R.choice([["[", "-", "1", "..", "2", "]"],
                        ["[", "0", "..", "-", "1", "]"],
                        ["[", "1", "..", "]"], ["[", "1", "]"],
                        ["[", "]"], ["[", "..", "2", "]"],
                        ["[", "1.0", "..", "2", "]"],
                        ["[", "*", "..", "2", "]"],
                        ["[", "*", "]"],
                        ["[", "0", "..", "1", "]", "[", "0", "..", "1", "]"],
                        ["[", "0", "..", "2.5", "]"],
                        ["(", "0", "..", "2", ")"],
                        ["[", "0", ",", "2", "]"]])
        return Edit(t, "array bounds %s" % " ".join(arr), lambda wr, h, i:
                    (h, ins(R, i, [fresh(t)[0], "Integer"] + arr)))
    if k == "union":
        if parent_final:
            raise Reject()
        ty, fatal, what = bad_union(R, w, t)
        return Edit(t, what, lambda wr, h, i:
                    (h, ins(R, i, [fresh(t)[0]] + ty)), fatal)
    if k == "keyword":
        if parent_final:
            raise Reject()
        kw = R.choice(sorted(set(reflex.KEYWORDS) - {"freeze"}))
        return Edit(t, "component named %s" % kw, lambda wr, h, i:
                    (h, ins(R, i, [kw, "Integer"])))
    n = fresh(t)[0]
    new = R.choice([[n], [n, "=", "1"], [n, "Integer", ","],
                    [n, "Integer", ";"], ["optional", n, "Integer"],
                    [n, "Integer", "optional"], ["freeze", n],
                    [n, "Integer", "=", "1"], ["separator", "@"],
                    ['"text"', n, "Integer"], [n, "optional"],
                    [n, "optional", "optional", "Integer"],
                    [n, '"a"', '"b"', "Integer"], ["1", "Integer"]])
    return Edit(t, "component declaration %s" % " ".join(new),
                lambda wr, h, i: (h, i + [new]))


def rename_edit(R, w, t):
    """give the type a name that is already taken"""
    p = t.pkg
    i = p.types.index(t)
    c = [x.name for x in p.types[:i]] * 2 + list(prog.BUILTIN) + [p.name] + \
        ["len", "oneof"]
    n = R.choice(c)
    if R.bool(20):
        n = R.choice(sorted(reflex.KEYWORDS))

    def fn(wr, h, it):
        kw = {"record": "type"}.get(t.k, t.k)
        j = h.index(kw)
        return h[:j + 1] + [n] + h[j + 2:], it
    return Edit(t, "type named %s" % n, fn)


def bad_union(R, w, t):
    p = t.pkg
    recs = [x for x in w.visible(p, ("record",))
            if x.pkg is not p or p.types.index(x) < p.types.index(t)]

    def name(x):
        return ([x.pkg.name, "."] if x.pkg is not p else []) + [x.name]
    k = R.int(0, 4)
    if k == 0:
        return ["[", "]"], True, "empty union"
    if k == 1:
        x = R.choice(prog.BUILTIN)
        return ["[", x, "]"], True, "union of builtin type"
    if k == 2:
        c = [x for x in p.types[:p.types.index(t)] if x.k != "record"]
        if not c:
            raise Reject()
        x = R.choice(c)
        ty = ["[", x.name]
        if recs:
            ty = ["["] + name(R.choice(recs)) + [",", x.name]
        return ty + ["]"], True, "union with %s type" % x.k
    if k == 3:
        return ["["] + bad_type(R, w, t, True) + ["]"], True, "union of" \
            " invalid type"
    if not recs:
        raise Reject()
    x = R.choice(recs)
    return ["["] + name(x) + [","] + name(x) + ["]"], False, "duplicate" \
        " union member"


def enum_edit(R, w, t):
    k = R.int(0, 4)
    if k == 0:
        return Edit(t, "empty enumeration", lambda wr, h, i: (h, []))
    if k == 1:
        n = R.choice(t.lits)
        return Edit(t, "duplicate literal", lambda wr, h, i:
                    (h, ins(R, i, [n])))
    if k == 2:
        new = R.choice([[","], ["1"], [";"], ["=", "1"], ["null"], ["true"],
                        [R.choice(sorted(reflex.KEYWORDS))]])
        return Edit(t, "literal %s" % " ".join(new), lambda wr, h, i:
                    (h, i + [new]))
    if k == 3:
        q = R.choice(["abstract", "final"])
        return Edit(t, "%s enumeration" % q, lambda wr, h, i: ([q] + h, i))
    return rename_edit(R, w, t)


def tuple_edit(R, w, t):
    ks = ["empty", "dup", "array", "type", "name", "syntax", "sep",
          "qualifier", "union", "lead"]
    if t.seps is None:
        ks += ["opt"] * 3
    else:
        ks += ["drop_sep"] * 2 + ["nest"] * 2
        if any(c.opt for c in t.comps):
            ks += ["mand"] * 3
    if len(t.comps) > 2:
        ks += ["mix"] * 2
    k = R.choice(ks)

    def fields(i):
        return [j for j, it in enumerate(i) if it[0] != "separator"]

    def more(i, new):
        """append a field"""
        return i + ([["separator", ":"]] if t.seps else []) + [new]

    if k == "empty":
        return Edit(t, "empty tuple", lambda wr, h, i: (h, []))
    if k == "dup":
        n = R.choice(t.comps).name
        opt = ["optional"] if t.comps[-1].opt else []
        if t.seps is None and len(t.comps) == 1 and R.bool():
            return Edit(t, "duplicate field", lambda wr, h, i:
                        (h, i + [["separator", "@"], [n, "Integer"]]))
        return Edit(t, "duplicate field", lambda wr, h, i:
                    (h, more(i, [n] + opt + ["Integer"])))
    if k == "array":
        def fn(wr, h, i):
            j = R.choice(fields(i))
            return h, i[:j] + [i[j] + ["[", "0", "..", "*", "]"]] + i[j + 1:]
        return Edit(t, "array field", fn)
    if k == "type":
        ty = bad_type(R, w, t)
        opt = ["optional"] if t.comps[-1].opt else []
        return Edit(t, "field of type %s" % " ".join(ty), lambda wr, h, i:
                    (h, more(i, [fresh(t)[0]] + opt + ty)))
    if k == "name":
        return rename_edit(R, w, t)
    if k == "syntax":
        n = fresh(t)[0]
        new = R.choice([[n], ["freeze", t.comps[0].name, "=", "1"],
                        ["separator", "@"], [n, "Integer", ","],
                        ["optional", n, "Integer"]])
        if new[0] == n:
            return Edit(t, "field %s" % " ".join(new), lambda wr, h, i:
                        (h, more(i, new)))
        return Edit(t, "field %s" % " ".join(new), lambda wr, h, i:
                    (h, i + [new]))
    if k == "sep":
        s = R.choice([",", "1", ".", "-", '"a"', "=", "type", "[", "@@"])
        s = ["@", "@"] if s == "@@" else [s]
        opt = ["optional"] if t.comps[-1].opt else []
        return Edit(t, "separator %s" % " ".join(s), lambda wr, h, i:
                    (h, i + [["separator"] + s,
                             [fresh(t)[0]] + opt + ["Integer"]]))
    if k == "qualifier":
        q = R.choice(["abstract", "final"])
        return Edit(t, "%s tuple" % q, lambda wr, h, i: ([q] + h, i))
    if k == "union":
        ty, fatal, what = bad_union(R, w, t)
        opt = ["optional"] if t.comps[-1].opt else []
        return Edit(t, what, lambda wr, h, i:
                    (h, more(i, [fresh(t)[0]] + opt + ty)), fatal)
    if k == "lead":
        return Edit(t, "leading separator", lambda wr, h, i:
                    (h, [["separator", "@"]] + i))
    if k == "opt":
        def fn(wr, h, i):
            j = R.choice(fields(i))
            # name, maybe description, type
            it = list(i[j])
            pos = 2 if len(it) > 1 and it[1][0] in "\"'" else 1
            return h, i[:j] + [it[:pos] + ["optional"] + it[pos:]] + \
                i[j + 1:]
        return Edit(t, "optional field without separators", fn)
    if k == "drop_sep":
        if len(t.comps) < 3:
            raise Reject()

        def fn(wr, h, i):
            j = R.choice([j for j, it in enumerate(i)
                          if it[0] == "separator"])
            return h, i[:j] + i[j + 1:]
        return Edit(t, "missing separator", fn)
    if k == "nest":
        c = [x for x in w.visible(t.pkg, ("tuple",))
             if x.seps is not None and
             (x.pkg is not t.pkg or
              t.pkg.types.index(x) < t.pkg.types.index(t))]
        if not c:
            raise Reject()
        x = R.choice(c)
        opt = ["optional"] if t.comps[-1].opt else []
        return Edit(t, "separator tuple nested in separator tuple",
                    lambda wr, h, i:
                    (h, more(i, [fresh(t)[0]] + opt +
                             wr.qual(x.pkg, x.name))))
    if k == "mand":
        return Edit(t, "mandatory field after optional one",
                    lambda wr, h, i:
                    (h, more(i, [fresh(t)[0], "Integer"])))
    # mix: one separator in the wrong place
    if t.seps is None:
        def fn(wr, h, i):
            j = R.int(1, len(i) - 1)
            return h, i[:j] + [["separator", "@"]] + i[j:]
        return Edit(t, "separator between some fields only", fn)

    def fn2(wr, h, i):
        j = R.choice([j for j, it in enumerate(i) if it[0] == "separator"])
        return h, i[:j] + [i[j]] + i[j:]
    return Edit(t, "two separators in a row", fn2)


def lit_tokens(R, w, wr, kind, pkg, en=None):
    """tokens of a literal of a builtin kind"""
    if kind == "int":
        return prog.int_text(R, R.int(-5, 5), False)
    if kind == "dec":
        return prog.dec_text(R, prog.gen_dec(R), False)
    if kind == "str":
        return ['"foo"']
    if kind == "bool":
        return [R.choice(["true", "false"])]
    return ["null"]


GOOD_LIT = {"Integer": "int", "Decimal": "dec", "String": "str",
            "Markup_String": "str", "Boolean": "bool"}


def wrong_value(R, w, ty, pkg, visible_only=True):
    """-> (function writer -> tokens, what, fatal) of a value that does not
    fit the type"""
    if isinstance(ty, Arr) and R.bool(60):
        k = R.int(0, 3)
        if k == 0 and ty.lo > 0:
            n = R.int(0, ty.lo - 1)
        elif k == 1 and ty.hi is not None:
            n = ty.hi + R.int(1, 2)
        else:
            # one bad element
            new, what, fatal = wrong_value(R, w, ty.elem, pkg)
            if what == "no value":
                # trailing commas are accepted
                raise Reject()
            if what.endswith("expression"):
                # the missing comma is reported, but see known_findings.txt
                fatal = False
            lim = ty.hi if ty.hi is not None else ty.lo + 2
            n = R.int(max(1, ty.lo), max(1, lim))
            if ty.hi is not None and n > ty.hi:
                raise Reject()
            if not w.can_value(ty.elem, [pkg] + pkg.imports):
                n = 1
                if ty.lo > 1:
                    raise Reject()
            at = R.int(0, n - 1)

            def fn(wr):
                rv = ["["]
                for i in range(n):
                    if i:
                        rv.append(",")
                    if i == at:
                        rv += new(wr)
                    else:
                        rv += wr.value(w.gen_value(
                            ty.elem, [pkg] + pkg.imports, 1))
                return rv + ["]"]
            return fn, "array element: " + what, fatal
        if not w.can_value(ty.elem, [pkg] + pkg.imports):
            raise Reject()
        vals = [w.gen_value(ty.elem, [pkg] + pkg.imports, 1)
                for _ in range(n)]
        return (lambda wr: wr.value(Val("arr", vals, ty)),
                "array length",
                False)
    if isinstance(ty, Tup) and R.bool(70):
        return wrong_tuple(R, w, ty, pkg)
    if isinstance(ty, Enum) and R.bool(70):
        k = R.int(0, 3)
        if k == 0:
            pre = [ty.name] if ty.pkg is pkg else [ty.pkg.name, ".", ty.name]
            n = R.choice([l for l in prog.LITS + ["zz"]
                          if l not in ty.lits])
            return (lambda wr: wr.qual(ty.pkg, ty.name) + [".", n],
                    "unknown literal", True)
        if k == 1:
            others = [e for e in w.visible(pkg, ("enum",)) if e is not ty]
            if not others:
                raise Reject()
            e = R.choice(others)
            l = R.choice(e.lits)
            return (lambda wr: wr.qual(e.pkg, e.name) + [".", l],
                    "literal of other enumeration", True)
        if k == 2:
            return (lambda wr: [R.choice(ty.lits)], "literal without type",
                    True)
        return lambda wr: wr.qual(ty.pkg, ty.name), "type only", True
    if isinstance(ty, (Rec, Uni)) and R.bool(70):
        ok = w.ref_targets(ty)
        k = R.int(0, 3)
        if k == 0:
            c = [o for o in w.objs if o.typ not in ok and
                 (o.pkg is pkg or o.pkg in pkg.imports)]
            if c:
                o = R.choice(c)
                return (lambda wr: wr.qual(o.pkg, o.name),
                        "reference to object of other type", True)
        if k == 1:
            return lambda wr: ["no_such_object"], "unknown object", True
        if k == 2:
            t = R.choice(pkg.types) if pkg.types else None
            if t is not None:
                return lambda wr: [t.name], "type instead of object", True
        c = [o for o in w.objs if o.typ in ok and o.pkg is not pkg]
        if c:
            o = R.choice(c)
            taken = [x.name for x in w.objs if x.pkg is pkg]
            if o.name not in taken:
                return (lambda wr: [o.name],
                        "object of other package without prefix", True)
        return (lambda wr: [pkg.name, ".", "no_such_object"],
                "unknown object in package", True)
    good = GOOD_LIT.get(ty) if isinstance(ty, str) else None
    kinds = [k for k in ("int", "dec", "str", "bool", "null") if k != good]
    k = R.choice(kinds + ["arr", "tup", "name", "empty", "expr"])
    if isinstance(ty, Arr) and k == "arr":
        k = "int"
    if k == "arr":
        inner = lit_tokens(R, w, None, good or "int", pkg)
        return lambda wr: ["["] + inner + ["]"], "array for other type", True
    if k == "tup":
        if isinstance(ty, Tup) and ty.seps is None:
            raise Reject()
        inner = lit_tokens(R, w, None, good or "int", pkg)
        return lambda wr: ["("] + inner + [")"], "parentheses", True
    if k == "name":
        if isinstance(ty, (Rec, Uni)):
            raise Reject()
        if isinstance(ty, Tup):
            return lambda wr: ["zz9"], "unknown object for a field", True
        return lambda wr: ["zz9"], "name for other type", True
    if k == "empty":
        return lambda wr: [], "no value", True
    if k == "expr":
        if good == "int":
            new = R.choice([["1", "+", "2"], ["-", "-", "1"],
                            ["-", "(", "1", ")"], ["1", "2"], ["abs", "1"]])
        elif good == "str":
            new = R.choice([['"a"', "+", '"b"'], ["+", '"a"'],
                            ['"a"', '"b"']])
        elif good == "bool":
            new = R.choice([["not", "true"], ["true", "and", "false"],
                            ["-", "true"]])
        else:
            raise Reject()
        return lambda wr: new, "expression", True
    if isinstance(ty, Tup) and ty.seps is not None and \
       isinstance(ty.comps[0].ty, str) and \
       (len(ty.comps) == 1 or ty.comps[1].opt):
        # a literal can be a complete tuple value
        good = GOOD_LIT[ty.comps[0].ty]
        if k == good:
            raise Reject()
    new = lit_tokens(R, w, None, k, pkg)
    return lambda wr: new, "%s literal for other type" % k, True


LATE = ("reference to object", "unknown object", "type instead of object",
        "object of other package")


def late(what):
    """errors that are found when references are resolved"""
    return any(x in what for x in LATE)


def wrong_tuple(R, w, ty, pkg):
    if not w.can_value(ty, [pkg] + pkg.imports):
        raise Reject()
    v = w.gen_value(ty, [pkg] + pkg.imports, 0)

    def parts(wr):
        rv = []
        for c in ty.comps:
            if v.v[c.name].kind == "null":
                break
            rv.append(wr.value(v.v[c.name]))
        return rv

    def join(ps, seps):
        rv = list(ps[0]) if ps else []
        for i, x in enumerate(ps[1:]):
            rv += [seps[i] if seps else ","] + x
        return rv

    k = R.int(0, 4)
    nested_only = len(ty.comps) == 1
    if k == 0 and not nested_only:
        # the other form
        if ty.seps is None:
            return lambda wr: join(parts(wr), ["@"] * 9), "separators for" \
                " generic tuple", True
        return lambda wr: ["("] + join(parts(wr), ty.seps) + [")"], \
            "parentheses for separator tuple", True
    if k == 1:
        nmand = len([c for c in ty.comps if not c.opt])
        if nmand < 2:
            raise Reject()
        n = R.int(1, nmand - 1)
        if ty.seps is None:
            return lambda wr: ["("] + join(parts(wr)[:n], None) + [")"], \
                "missing field", True
        return lambda wr: join(parts(wr)[:n], ty.seps), "missing field", True
    if k == 2:
        if ty.seps is None:
            return lambda wr: ["("] + join(parts(wr) + [["1"]], None) + \
                [")"], "additional field", True
        return lambda wr: join(parts(wr), ty.seps) + [
            R.choice(["@", ":", ";"]), "1"], "additional field", \
            True
    if k == 3 and not nested_only:
        if ty.seps is None:
            return lambda wr: ["("] + join(parts(wr), [";"] * 9) + [")"], \
                "wrong separator", True
        n = len([c for c in ty.comps if v.v[c.name].kind != "null"])
        if n < 2:
            raise Reject()
        at = R.int(0, n - 2)
        other = R.choice([s for s in prog.SEPS + [",", "."]
                          if s != ty.seps[at]])
        seps = list(ty.seps)
        seps[at] = other
        return lambda wr: join(parts(wr), seps), "wrong separator", True
    at = R.int(0, len(ty.comps) - 1)
    inner = [i for i, c in enumerate(ty.comps) if isinstance(c.ty, Tup)]
    if inner and ty.seps is None:
        # mistakes in tuples inside of tuples
        at = R.choice(inner)
    c = ty.comps[at]
    if v.v[c.name].kind == "null" or isinstance(c.ty, Arr) or \
       isinstance(c.ty, Tup) and ty.seps is not None:
        raise Reject()
    new, what, fatal = wrong_value(R, w, c.ty, pkg)
    if what == "no value" and at > 0 and ty.seps and c.opt and False:
        raise Reject()

    def fn(wr):
        ps = parts(wr)
        ps[at] = new(wr)
        if ty.seps is None:
            return ["("] + join(ps, None) + [")"]
        return join(ps, ty.seps)
    return fn, "field: %s" % what, fatal


def object_edit(R, w, o):
    t = o.typ
    p = o.pkg
    names = list(o.vals)
    frozen = t.frozen()
    ks = ["unknown_comp", "type", "name", "syntax"]
    if names:
        ks += ["twice", "value", "value", "value", "value", "value"]
    mand = [n for n in names if not t.comp(n).opt]
    if mand:
        ks += ["missing"] * 3
    if frozen:
        ks += ["frozen"] * 3
    k = R.choice(ks)
    if k == "unknown_comp":
        n = R.choice(["zz9", "typ", t.name] + [c for c in prog.COMP_NAMES])
        if n in [c.name for c in t.comps()]:
            raise Reject()
        return Edit(o, "unknown component %s" % n, lambda wr, h, n_, i:
                    (h, n_, ins(R, i, [n, "=", "1"])))
    if k == "twice":
        n = R.choice(names)

        def fn(wr, h, n_, i):
            new = [n, "="] + wr.value(o.vals[n])
            return h, n_, i + [new]
        return Edit(o, "component assigned twice", fn)
    if k == "missing":
        n = R.choice(mand)
        return Edit(o, "component missing", lambda wr, h, n_, i:
                    (h, n_, [it for it in i if it[0] != n]))
    if k == "frozen":
        n = R.choice(sorted(frozen))
        if not w.can_value(frozen[n].ty, None):
            raise Reject()
        return Edit(o, "frozen component assigned",
                    lambda wr, h, n_, i:
                    (h, n_, ins(R, i, [n, "="] + wr.value(frozen[n]))))
    if k == "value":
        rich = [n for n in names if not isinstance(t.comp(n).ty, str)]
        tups = [n for n in rich if isinstance(t.comp(n).ty, Tup) or
                isinstance(t.comp(n).ty, Arr) and
                isinstance(t.comp(n).ty.elem, Tup)]
        n = R.choice(R.weighted((3, names), (3, rich), (4, tups)) or names)
        save = p.imports
        new, what, fatal = wrong_value(R, w, t.comp(n).ty, p)
        p.imports = save

        def fn(wr, h, n_, i):
            return h, n_, [[n, "="] + new(wr) if it[0] == n else it
                           for it in i]
        return Edit(o, "value: " + what, fn, fatal)
    if k == "type":
        kk = R.int(0, 4)
        if kk == 0:
            ty = [R.choice(UNKNOWN)]
        elif kk == 1:
            c = [x for x in p.types if x.k == "record" and x.abstract]
            if not c:
                raise Reject()
            ty = [R.choice(c).name]
        elif kk == 2:
            c = [x for x in p.types if x.k != "record"]
            if not c:
                raise Reject()
            ty = [R.choice(c).name]
        elif kk == 3:
            ty = [R.choice(prog.BUILTIN)]
        else:
            if t.pkg is p or t.name in [x.name for x in p.types]:
                raise Reject()
            ty = [t.name]
        return Edit(o, "object of type %s" % " ".join(ty),
                    lambda wr, h, n_, i: (ty, n_, i))
    if k == "name":
        kk = R.int(0, 3)
        if kk == 0 and p.types:
            n = R.choice(p.types).name
        elif kk == 1:
            n = p.name
        elif kk == 2:
            n = R.choice(sorted(reflex.KEYWORDS))
        else:
            # clash with another object; the later one is in error,
            # wherever that is
            c = [x for x in w.objs if x.pkg is p and x is not o]
            if not c:
                raise Reject()
            base = R.choice(c).name
            n = R.choice([base, base.upper(), base.lower(), base + "_",
                          base[0] + "_" + base[1:], base.swapcase()])
            if n in reflex.KEYWORDS:
                raise Reject()
            return Edit(o, "object named %s clashes with %s" % (n, base),
                        lambda wr, h, n_, i: (h, [n], i), None)
        return Edit(o, "object named %s" % n,
                    lambda wr, h, n_, i: (h, [n], i))
    new = R.choice([["zz"], ["="], ["1"], [";"], ["freeze", "zz", "=", "1"],
                    ["section", '"x"', "{", "}"], [",", ]])
    return Edit(o, "component association %s" % " ".join(new),
                lambda wr, h, n_, i: (h, n_, i + [new]))


def check_block_edit(R, w, t):
    """a broken check block after a type"""
    p = t.pkg
    view_names = []
    if t.k != "enum":
        view_names = [c.name for c in (t.comps() if t.k == "record"
                                       else t.comps)]
    k = R.int(0, 9)
    ok = ["true", ",", '"m"']
    name = t.name
    fatal = True
    if k == 0:
        name, body, what = R.choice(UNKNOWN), ok, "checks for unknown type"
    elif k == 1:
        c = [x for x in p.types[:p.types.index(t) + 1] if x.k == "enum"]
        name = R.choice(c).name if c else R.choice(prog.BUILTIN)
        body, what = ok, "checks for %s" % name
    elif k == 2:
        x = later(R, t, ("record", "tuple"))
        if x is None:
            raise Reject()
        name, body, what = x.name, ok, "checks before declaration"
    elif k == 3:
        c = [x for q in p.imports for x in q.types
             if x.k == "record" and x.name not in [y.name for y in p.types]]
        if not c:
            raise Reject()
        name, body, what = R.choice(c).name, ok, "checks for foreign type"
    elif t.k == "enum":
        raise Reject()
    elif k == 4:
        n = R.choice(["zz9"] + [c for c in prog.COMP_NAMES
                                if c not in view_names])
        body = ok + [",", n]
        if R.bool():
            body = ok + [",", '"details"', ",", n]
        what = "anchor %s" % n
    elif k == 5:
        sev = R.choice(["abstract", "null", "true", "note", "Warning",
                        "info", "separator"])
        body, what = ["true", ",", sev, '"m"'], "severity " + sev
    elif k == 6:
        body = R.choice([["true"], ["true", ","], ["true", '"m"'],
                         ["true", ",", "warning"], ["true", ",", "1"],
                         [",", '"m"'], ['"m"', ",", "true"],
                         ["true", ",", '"m"', ","],
                         ["true", ",", '"m"', ",", "1"],
                         ["true", ",", '"m"', '"details"'],
                         ["warning", "true", ",", '"m"'],
                         ["true", ",", '"m"', ",", '"d"', ",", '"x"'],
                         ["true", ",", '"m"', ";"]])
        what = "check %s" % " ".join(body)
    elif k == 7:
        body, what, fatal = ["true", ",", "'''a\nb'''"], "newline", False
    elif k == 8:
        e = R.choice([["1"], ['"a"'], ["null"], ["zz9"], ["1", "+", "2"],
                      ["2.5"], ["len", "(", '"a"', ")"],
                      ["zz9", "==", "1"], [name], [p.name],
                      ["not", "1"]])
        body, what = e + [",", '"m"'], "check of %s" % " ".join(e)
    else:
        pre = R.choice([[p.name, ".", name], [name, ","], [],
                        ["type", name], [name, '"x"']])
        toks = ["checks"] + pre + ["{"] + ok + ["}"]
        what = "checks " + " ".join(pre)
        return after(t, toks, what, True)
    toks = ["checks", name, "{"]
    if R.bool(40) and body[0] not in (",", '"m"'):
        toks += ok
    toks += body
    if R.bool(40) and what.startswith(("newline", "anchor", "severity")):
        toks += ["true", ",", '"m"']
    toks += ["}"]
    return after(t, toks, what, fatal)


def tag(what):
    w = what.split()
    if w[0] in ("type", "anchor", "severity", "extends", "check", "checks",
                "qualifier", "separator", "literal"):
        return w[0]
    if w[0] in ("object", "component") and w[1] in ("named", "of"):
        return " ".join(w[:2])
    if w[0] == "field" and w[1] != "of":
        return "field"
    if what.startswith(("unknown component", "component declaration",
                        "component association", "array bounds",
                        "field of type")):
        return " ".join(w[:2])
    return what[:40]


def after(t, toks, what, fatal):
    e = Edit(None, what, None, fatal)
    e.block = (t, toks)
    return e


def make(R, w, kind):
    """-> case with one edit applied"""
    if kind == "object":
        if not w.objs:
            raise Reject()
        e = object_edit(R, w, R.choice(w.objs))
    else:
        types = [t for p in w.pkgs for t in p.types]
        t = R.choice(types)
        if R.bool(25):
            e = check_block_edit(R, w, t)
        elif t.k == "enum":
            e = enum_edit(R, w, t)
        elif t.k == "tuple":
            e = tuple_edit(R, w, t)
        else:
            e = record_edit(R, w, t)
    if e.target is None:
        t, toks = e.block

        def blk(wr):
            wr.t(prog.Mark(("edit",), True))
            wr.t(*toks)
            wr.t(prog.Mark(("edit",), False))
            wr.nl()
        w.opts.extra["blocks"] = {t: [blk]}
    else:
        w.edit = e
    files = prog.render(w, fancy=R.bool(50))
    if ("edit",) not in w.marks:
        raise Reject()
    return {"files": files, "what": e.what, "span": w.marks[("edit",)],
            "fatal": e.fatal}


def located(files, span, errs):
    """is one of the errors inside of the span, or at the token after it"""
    fn, a, b = span
    text = files[fn]
    toks, _ = reflex.lex(text)
    end = len(text) + 1
    for t in toks:
        if t[2] >= b:
            end = t[3]
            break
    starts = [0]
    for line in text.split("\n"):
        starts.append(starts[-1] + len(line) + 1)
    for m in errs:
        if m.file == fn and m.line is not None:
            if m.col is None:
                if text[:a].count("\n") + 1 <= m.line <= \
                   text[:end].count("\n") + 1:
                    return True
            elif a <= starts[m.line - 1] + m.col - 1 <= end:
                return True
    return False


def decide(case):
    files = case["files"]
    res = api.process(files)
    errs = [m for m in res.errors()]
    need(errs and res.mh.errors > 0, "accepted: %s\n%s", case["what"],
         api.show(files))
    if case["fatal"] is not False:
        need(res.stab is None, "a result is returned: %s\n%s\n%s",
             case["what"], res.text, api.show(files))
    need(not [m for m in res.msgs if m.kind.startswith("check")],
         "checks were evaluated although %s\n%s\n%s", case["what"], res.text,
         api.show(files))
    fn, a, b = case["span"]
    if case["fatal"] is None:
        need(any(m.file.split(".")[0].split("_")[0] == fn.split("_")[0] or
                 m.file in files for m in errs), "no error located")
        return
    if located(files, case["span"], errs):
        return
    need(False, "no error in the declaration at fault (%s)\n%s\n%s",
         case["what"], res.text, api.show(files))


__all__ = ["make", "decide", "values"]
