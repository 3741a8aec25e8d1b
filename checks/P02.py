"""P02: robustness - damaged and arbitrary programs in every mode."""
from vlib import api, core, expr, prog, reflex
from vlib.api import need
from vlib.core import Reject

ID = "P02"
RULE = ("a program of at least 20 tokens to which at least one mutation was"
        " applied, or which runs with linting or verification")
QUICK = 20000
THOROUGH = 1500000
ASSUMPTIONS = ["no literal above 64 near an exponentiation operator",
               "nesting far below the interpreter's recursion limit"]

SOUP = ["(", ")", "{", "}", "[", "]", ",", "@", ":", ";", "/", "%", "+", "-",
        "=", "=>", "==", ".", "..", "<", "<=", "!=", "*", "**", "0", "1",
        "7", "2.5", '"a"', "'''b\n  c'''", '"x [foo] y"', '"(["', "foo",
        "Alpha", "Integer", "String", "Markup_String", "len", "matches",
        "Pkg", "Lib", "x"] + sorted(reflex.KEYWORDS)
CHARS = list("\"'\\/*.=<>!_ \n\t01xXbBea-+@#$?&|~^`;:(){}[],") + \
    ["\u00e9", "\u65e5", "\x00", "\u2028", "\r", "\ufeff", "\U0001f600"]


def add_checks(R, w, n=3):
    """random check blocks for the types of a world"""
    blocks = {}
    for p in w.pkgs:
        for t in p.types:
            if t.k == "enum" or not R.bool(60):
                continue
            view = expr.RecView(w, t)
            if not view.env:
                continue
            try:
                lines = []
                for i in range(R.int(1, n)):
                    g = expr.Gen(R, view, null_pct=25)
                    toks = g.at(0, "Boolean", R.int(1, 3)) + [","]
                    sev = R.choice([None, "warning", "error", "fatal"])
                    if sev:
                        toks.append(sev)
                    toks.append('"message %u"' % i)
                    if R.bool(25):
                        toks += [",", '"details"']
                    if R.bool(25):
                        toks += [",", R.choice(sorted(view.env))]
                    lines.append(toks)
            except Reject:
                continue

            def blk(wr, t=t, lines=lines):
                wr.t("checks", t.name, "{")
                wr.nl()
                for l in lines:
                    wr.t(*l)
                    wr.nl()
                wr.t("}")
                wr.nl()
            blocks[t] = [blk]
    w.opts.extra["blocks"] = blocks


def small_verify(R):
    w = expr.EnvWorld(R, n_obj=1, inherit=R.bool())
    g = expr.Gen(R, w, null_pct=10)
    n = R.int(1, 2)
    return w.files([(g.at(0, "Boolean", 2), None, "m%u" % i, None, None)
                    for i in range(n)])


def base(R):
    k = R.weighted((6, "world"), (3, "env"), (1, "text"))
    if k == "world":
        w = prog.build(R)
        if R.bool(60):
            add_checks(R, w)
        return prog.render(w, fancy=R.bool(60))
    if k == "env":
        w = expr.EnvWorld(R, n_obj=R.int(1, 2))
        g = expr.Gen(R, w, null_pct=20)
        return w.files([(g.at(0, "Boolean", 3), None, "m%u" % i, None, None)
                        for i in range(R.int(1, 3))], fancy=R.bool())
    rv = {}
    for n in ("a.rsl", "b.trlc"):
        toks = R.list(0, 25, lambda: R.choice(SOUP))
        if R.bool(80):
            toks = ["package", R.choice(["Pkg", "Lib", "x"])] + toks
        rv[n] = R.choice([" ", "", "\n"]).join(toks)
    return rv


def mutate_tokens(R, text, other):
    """one token-level mutation"""
    toks, _ = reflex.lex(text)
    if not toks:
        return text
    i = R.int(0, len(toks) - 1)
    s, e = toks[i][2], toks[i][3]
    k = R.weighted((3, "del"), (3, "ins"), (3, "rep"), (2, "swap"),
                   (2, "copy"), (2, "trunc"), (1, "range"), (1, "dup"))
    if k == "del":
        return text[:s] + text[e:]
    if k == "ins":
        return text[:s] + R.choice(SOUP) + " " + text[s:]
    if k == "rep":
        return text[:s] + R.choice(SOUP) + text[e:]
    j = R.int(0, len(toks) - 1)
    s2, e2 = toks[j][2], toks[j][3]
    if k == "swap" and e <= s2:
        return text[:s] + text[s2:e2] + text[e:s2] + text[s:e] + text[e2:]
    if k == "copy":
        src, _ = reflex.lex(other)
        if src:
            q = R.choice(src)
            return text[:s] + other[q[2]:q[3]] + text[e:]
    if k == "trunc":
        return text[:s] if R.bool() else text[:e]
    if k == "range" and s < e2 and j - i < 12:
        return text[:s] + text[e2:]
    if k == "dup" and s < e2 and j - i < 25:
        return text[:e2] + " " + text[s:e2] + text[e2:]
    return text


def mutate_chars(R, text):
    if not text:
        return R.choice(CHARS)
    i = R.int(0, len(text) - 1)
    k = R.int(0, 3)
    if k == 0:
        return text[:i] + text[i + 1:]
    if k == 1:
        return text[:i] + R.choice(CHARS) + text[i:]
    if k == 2:
        return text[:i]
    return text[:i] + R.choice(CHARS) + text[i + 1:]


def dangerous(text):
    """exponentiation with a large literal nearby"""
    toks, _ = reflex.lex(text)
    for i, t in enumerate(toks):
        if t[0] == "OPERATOR" and t[1] == "**":
            for u in toks[i:i + 10]:
                if u[0] == "INTEGER" and abs(u[1]) > 64:
                    return True
    return False


def gen(R):
    mode = R.weighted((5, "plain"), (4, "lint"), (1, "verify"))
    files = small_verify(R) if mode == "verify" and R.bool(70) else base(R)
    n = R.weighted((1, 0), (6, 1), (3, 2), (1, 5))
    nmut = 0
    for _ in range(n):
        if not files:
            break
        name = R.choice(sorted(files))
        k = R.weighted((8, "tok"), (3, "char"), (1, "file"))
        if k == "tok":
            new = mutate_tokens(R, files[name], files[R.choice(
                sorted(files))])
        elif k == "char":
            new = mutate_chars(R, files[name])
        else:
            kk = R.int(0, 3)
            if kk == 0 and len(files) > 1:
                del files[name]
                nmut += 1
                continue
            if kk == 1:
                new_name = "copy" + name[name.rfind("."):]
                files[new_name] = files[name]
                nmut += 1
                continue
            if kk == 2:
                new = ""
            else:
                new = files[name].replace("import", "package", 1)
        nmut += new != files[name]
        files[name] = new
    if any(dangerous(t) for t in files.values()):
        raise Reject()
    return {"files": files, "nmut": nmut, "lint": mode != "plain",
            "verify": mode == "verify", "recovery": not R.bool(30),
            "brief": not R.bool(15), "trlc": not R.bool(10)}


# Messages that are reported as errors but do not stop the symbol table from
# being returned; see known_findings.txt.
NON_FATAL = ("this array requires at least", "this array requires at most",
             "error message must not contain a newline", "duplicate type ",
             "comma separating array elements is missing")


def check(case):
    if case["verify"]:
        return tuple(core.forked(lambda: decide(case), 8))
    return decide(case)


def decide(case):
    files = case["files"]
    try:
        res = api.process(files, lint=case["lint"], verify=case["verify"],
                          recovery=case["recovery"], trlc=case["trlc"],
                          brief=True)
        if not case["brief"]:
            api.process(files, lint=case["lint"], recovery=case["recovery"],
                        trlc=case["trlc"], brief=False)
    except api.Violation as v:
        raise api.Violation("%s\n%s" % (v, api.show(files))) from v
    need((res.mh.errors > 0) or res.stab is not None,
         "no result and no error\n%s\n%s", res.text, api.show(files))
    errs = res.errors()
    need(len(errs) == res.mh.errors, "%u errors printed, %u counted\n%s\n%s",
         len(errs), res.mh.errors, res.text, api.show(files))
    if res.stab is not None and res.mh.errors:
        rest = [m for m in errs if not any(x in m.msg for x in NON_FATAL)]
        need(not rest, "result returned despite errors %s\n%s", rest,
             api.show(files))
    for m in res.msgs:
        need(m.kind is not None, "malformed message %r\n%s", m.raw,
             api.show(files))
        need(m.kind in ("lex error", "error", "issue", "warning",
                        "check error", "check warning"),
             "message of kind %s: %s\n%s", m.kind, m.raw, api.show(files))
        need(m.file in files, "message about unknown file: %s\n%s", m.raw,
             api.show(files))
        if m.line is not None:
            lines = files[m.file].split("\n")
            need(1 <= m.line <= len(lines) and
                 (m.col is None or
                  1 <= m.col <= len(lines[m.line - 1]) + 1),
                 "position outside the file: %s\n%s", m.raw, api.show(files))
    big = sum(len(t) for t in files.values()) > 60
    return (big and (case["nmut"] > 0 or case["lint"] or case["verify"]),
            "%s%s %s" % ("verify" if case["verify"] else "",
                         "lint" if case["lint"] else "",
                         "errors" if res.mh.errors else "clean"))
