"""P13: user-defined checks - which messages appear for which object, in
which order, with which severity and position, decided by a model."""
from vlib import api, expr, prog
from vlib.api import need
from vlib.core import Reject

ID = "P13"
RULE = ("at least two messages are expected, at least one evaluated check"
        " holds, and checks of at least two different types or blocks were"
        " evaluated")
QUICK = 24000
THOROUGH = 600000

TEXTS = ["must hold", "100% wrong", "say \\\"no\\\"", "[x] fails", "a: b",
         "caf\u00e9", "it's"]


class Stop(Exception):
    pass


class Chk:
    def __init__(self, n, toks, sev, msg, det, anchor, ast):
        self.n, self.toks, self.sev, self.msg = n, toks, sev, msg
        self.det, self.anchor, self.ast = det, anchor, ast

    def text(self):
        return self.msg.replace('\\"', '"')

    def emit(self, w):
        w.t(*self.toks)
        w.t(",")
        if self.sev:
            w.t(self.sev)
        w.t('"' + self.msg + '"')
        if self.det is not None:
            w.t(",", '"' + self.det + '"')
        if self.anchor:
            w.t(",", self.anchor)
        w.nl()


def gen_check(R, view, n, pct_fatal):
    names = sorted(view.env)
    k = R.weighted((3, "const"), (3, "null"), (8, "expr"))
    if k == "null" and not names:
        k = "const"
    if k == "const":
        toks = [R.choice(["true", "false", "false"])]
    elif k == "null":
        toks = [R.choice(names), R.choice(["==", "!="]), "null"]
    else:
        toks = expr.Gen(R, view, null_pct=7).at(0, "Boolean", R.int(1, 2))
    try:
        e = expr.P(toks, view.env, view.enums, view.epkgs, view.taken).all()
        if expr.typ(e) != "Boolean":
            raise Reject()
    except expr.Bad:
        raise Reject() from None
    sev = R.choice([None, "warning", "error", "warning"])
    if R.bool(pct_fatal):
        sev = "fatal"
    msg = "%s #%u" % (R.choice(TEXTS), n)
    det = "some detail %u" % n if R.bool(25) else None
    anchor = R.choice(names) if names and R.bool(30) else None
    return Chk(n, toks, sev, msg, det, anchor, e)


def gen(R):
    w = prog.build(R, max_types=5, max_pkgs=2, max_objs=5)
    pct_fatal = R.choice([0, 6, 20])
    blocks = {}
    tail = {}
    checks = {}
    n = 0
    for p in w.pkgs:
        for t in p.types:
            if t.k == "enum" or R.bool(25):
                continue
            view = expr.RecView(w, t)
            checks[t] = []
            for _ in range(R.weighted((5, 1), (2, 2), (1, 3))):
                cs = []
                for _ in range(R.int(0, 3)):
                    cs.append(gen_check(R, view, n, pct_fatal))
                    n += 1

                def blk(wr, t=t, cs=cs):
                    wr.t("checks", t.name, "{")
                    wr.nl()
                    for c in cs:
                        c.emit(wr)
                    wr.t("}")
                    wr.nl()
                if tail.get(p) is None and R.bool(60):
                    blocks.setdefault(t, []).append(blk)
                else:
                    tail.setdefault(p, []).append(blk)
                checks[t].append(cs)
    # all blocks of a type must be emitted in this order
    w.opts.extra["blocks"] = blocks
    w.opts.extra["tail"] = tail
    files = prog.render(w, fancy=R.bool(60), nfiles=2)

    stat = {"true": 0, "false": 0, "err": 0, "blocks": set()}
    expect = {}

    def span(key, default):
        return w.marks.get(key, w.marks[default])

    def run(t, ctx, key, default, out):
        for bi, cs in enumerate(checks.get(t, [])):
            for c in cs:
                stat["blocks"].add((t.name, bi))
                try:
                    v = expr.Ev(ctx).value(c.ast)
                except expr.RunErr:
                    v = None
                if v is None:
                    out.append(["error", None, None])
                    stat["err"] += 1
                    raise Stop()
                if v:
                    stat["true"] += 1
                    continue
                stat["false"] += 1
                loc = key
                if c.anchor and ctx[c.anchor] is not None:
                    loc = default(c.anchor)
                out.append(["check warning" if c.sev == "warning" else
                            "check error", c.text(), w.marks[loc]])
                if c.sev == "fatal":
                    raise Stop()

    def value_checks(v, key, out):
        if v.kind == "arr":
            for i, x in enumerate(v.v):
                value_checks(x, key + (i,), out)
        elif v.kind == "tup":
            for c in v.ty.comps:
                value_checks(v.v[c.name], key + (c.name,), out)
            run(v.ty, expr.conv(v), key, lambda a: key + (a,), out)

    for o in w.objs:
        out = []
        frozen = {}
        for t in o.typ.chain():
            for name, v in t.freezes.items():
                frozen[name] = (v, ("freeze", t.fq(), name))

        def where(name):
            if name in frozen:
                return frozen[name][1]
            return ("val", o.fq(), name)
        try:
            for c in o.typ.comps():
                v = frozen[c.name][0] if c.name in frozen else \
                    o.vals.get(c.name)
                if v is not None:
                    value_checks(v, where(c.name), out)
            ctx = expr.fields(o)
            for t in o.typ.chain():
                run(t, ctx, ("obj", o.fq()), where, out)
        except Stop:
            pass
        expect[o.fq()] = out
    if not stat["blocks"]:
        raise Reject()
    return {"files": files, "expect": expect,
            "stat": [stat["true"], stat["false"], stat["err"],
                     len(stat["blocks"])]}


def check(case):
    files = case["files"]
    res = api.process(files)

    def ctx():
        return "%s\n%s" % (res.text, api.show(files))

    starts = {}
    for n, t in files.items():
        starts[n] = [0]
        for l in t.split("\n"):
            starts[n].append(starts[n][-1] + len(l) + 1)
    got = []
    for m in res.msgs:
        need(m.kind in ("check error", "check warning", "error"),
             "unexpected message %s\n%s", m.raw, ctx())
        off = None
        if m.line is not None and m.col is not None and m.file in starts:
            off = starts[m.file][m.line - 1] + m.col - 1
        got.append((m, off))

    def fits(g, e):
        m, off = g
        if e[0] == "error":
            return m.kind == "error"
        return m.kind == e[0] and m.msg == e[1] and m.file == e[2][0] and \
            off is not None and e[2][1] <= off < e[2][2]

    flat = []
    for fq, exp in case["expect"].items():
        # the messages of one object appear in the order of evaluation
        i = 0
        for e in exp:
            while i < len(got) and not fits(got[i], e):
                i += 1
            need(i < len(got), "object %s: expected messages in this order:"
                 " %s; missing or out of order: %s\n%s", fq, exp, e, ctx())
            i += 1
        flat += exp
    need(len(flat) == len(got), "%u messages expected %s, got %u\n%s",
         len(flat), flat, len(got), ctx())
    left = list(flat)
    for g in got:
        hit = [e for e in left if fits(g, e)]
        need(hit, "message not expected (or too often): %s\n%s", g[0].raw,
             ctx())
        left.remove(hit[0])
    nerr = sum(1 for e in flat if e[0] != "check warning")
    need(res.mh.errors == nerr and res.mh.warnings == len(flat) - nerr,
         "counted %u errors and %u warnings\n%s", res.mh.errors,
         res.mh.warnings, ctx())
    need((res.stab is None) == (nerr > 0),
         "result returned: %s, errors expected: %u\n%s",
         res.stab is not None, nerr, ctx())
    t, f, e, b = case["stat"]
    return (len(flat) >= 2 and t >= 1 and b >= 2,
            "true>%u false>%u err>%u" % (min(t, 1), min(f, 1), min(e, 1)))
