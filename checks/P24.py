"""P24: how messages are shown - context, caret, details and the brief form
agree."""
import re

from vlib import api, core, expr, reflex
from vlib.api import need
from vlib.core import Reject
from checks import P02

ID = "P24"
RULE = ("at least two messages with a position, one of them with details or"
        " on an indented line")
QUICK = 20000
THOROUGH = 500000
ASSUMPTIONS = ["the extent of a message's location is that of the token at "
               "its position; positions inside a token are not checked"]

DETAIL = ["", "see the manual", "a", "1. first", "  indented", "trailing  ",
          "| bar", "\u00fcber", "x: error: y", "tab\there", "^^^",
          "foo.rsl:1: warning: no"]


def details(R):
    """-> (text of the string literal without its outermost quote characters,
    expected lines)"""
    if R.bool(50):
        d = R.choice(DETAIL)
        return d, [d] if d else []
    n = R.int(1, 5)
    ind = " " * R.int(0, 4)
    lines = [ind + R.choice(DETAIL) for _ in range(n)]
    q = R.choice(['"""'])
    text = q + R.choice(["", "\n", "\n" + ind]) + "\n".join(lines) + \
        R.choice(["", "\n", "\n" + ind]) + q
    val = reflex.lex(text)[0][0][1]
    return text[1:-1], val.split("\n") if val else []


def indent(R, text):
    """some more layout; no semantic effect outside of strings"""
    out = []
    for l in text.split("\n"):
        if R.bool(30) and l.strip():
            l = R.choice(["  ", "\t", " \t ", "      "]) + l
        out.append(l)
    return "\n".join(out)


def gen(R):
    if R.bool(35):
        w = expr.EnvWorld(R, n_obj=R.int(1, 3))
        comps = sorted(w.env)
        checks = []
        exp = {}
        for i in range(R.int(1, 5)):
            toks = R.choice([["false"], ["1", ">", "2"],
                             ["not", "(", "2", "==", "2", ")"]])
            det = lines = None
            if R.bool(70):
                det, lines = details(R)
            # (an empty detail has no lines)
            exp["m%u" % i] = lines
            checks.append((toks, R.choice([None, "warning", "error"]),
                           "m%u" % i, det,
                           R.choice(comps) if R.bool(40) else None))
        files = w.files(checks, fancy=False)
        files = {n: t if n == "main.rsl" else indent(R, t)
                 for n, t in files.items()}
        return {"files": files, "lint": R.bool(), "details": exp,
                "trlc": True, "recovery": True}
    case = P02.gen(R)
    if case["verify"]:
        raise Reject()
    files = case["files"]
    if R.bool(60):
        files = {n: indent(R, t) for n, t in files.items()}
    if any(P02.dangerous(t) for t in files.values()):
        raise Reject()
    return {"files": files, "lint": case["lint"], "trlc": case["trlc"],
            "recovery": case["recovery"], "details": None}


def out(res):
    """the lines of the output (only line feeds end a line)"""
    t = res.text
    need(t == "" or t.endswith("\n"), "output does not end in a line feed: "
         "%r", t)
    return t.split("\n")[:-1]


def check(case):
    files = case["files"]
    kw = dict(lint=case["lint"], trlc=case["trlc"],
              recovery=case["recovery"])
    brief = api.process(files, brief=True, **kw)
    short = api.process(files, brief=False, detailed=False, **kw)
    full = api.process(files, brief=False, detailed=True, **kw)

    def ctx():
        return "brief:\n%s\nfull:\n%s\n%s" % (brief.text, full.text,
                                              api.show(files))

    for r in (short, full):
        need((r.stab is None) == (brief.stab is None) and
             r.mh.errors == brief.mh.errors and
             r.mh.warnings == brief.mh.warnings,
             "the way messages are shown changes the result\n%s", ctx())
    toks = {}
    lines = out(short)
    flines = out(full)
    at = fat = 0
    positioned = indented = with_details = 0
    for raw in out(brief):
        m = api.Msg(raw)
        if m.kind is None:
            raise Reject()       # a message of several lines (odd characters)
        tail = "%s: %s%s" % (m.kind, m.msg,
                             " [%s]" % m.cat if m.cat else "")
        tok = None
        if m.col is not None and m.file in files:
            if m.file not in toks:
                ts, err = reflex.lex(files[m.file])
                toks[m.file] = {t[2]: t for t in ts}
            text = files[m.file]
            src = text.split("\n")
            pos = sum(len(l) + 1 for l in src[:m.line - 1]) + m.col - 1
            tok = toks[m.file].get(pos)
        plain = "%s: %s" % (raw[:raw.index(": trlc ")], tail)
        if at < len(lines) and lines[at] == plain and \
                (tok is None or (m.line, m.col) == (1, 1)):
            need(fat < len(flines) and flines[fat] == plain,
                 "full output without %r\n%s", plain, ctx())
            at += 1
            fat += 1
            width = 0
        else:
            need(m.col is not None, "expected %r, got %r\n%s", plain,
                 lines[at:at + 1], ctx())
            line = src[m.line - 1]
            stripped = line.lstrip()
            off = m.col - 1 - (len(line) - len(stripped))
            need(at + 1 < len(lines), "output ends early\n%s", ctx())
            want = stripped.replace("\t", " ")
            need(lines[at] == want, "context of %r: expected %r, got %r\n%s",
                 raw, want, lines[at], ctx())
            mm = re.match(r"( *)(\^+) ", lines[at + 1])
            if off < 0:
                # (in the white space at the start of the line)
                mm = re.match(r"( *)(\^*) ", lines[at + 1])
            need(mm is not None, "no marker in %r\n%s", lines[at + 1], ctx())
            if off >= 0:
                # (for a malformed token it may be at the offending character)
                need(len(mm.group(1)) == off or tok is None and
                     off < len(mm.group(1)) <= len(stripped), "marker for %r in the wrong "
                     "place: %r\n%s", raw, lines[at:at + 2], ctx())
            n = len(mm.group(2))
            left = len(line) - (m.col - 1)
            need(len(mm.group(1)) - off + n <=
                 max(left, 0) + 1, "marker for %r beyond the line: %r\n%s",
                 raw, lines[at:at + 2], ctx())
            if tok is not None and off >= 0:
                size = min(tok[3] - tok[2], left)
                need(n == size or m.kind == "lex error", "marker for %r has "
                     "length %u, token has %u: %r\n%s", raw, n, size,
                     lines[at:at + 2], ctx())
            rest = lines[at + 1][mm.end():]
            want = "%s:%u: %s" % (m.file, m.line, tail)
            need(rest == want, "message expected %r, got %r\n%s", want,
                 rest, ctx())
            need(flines[fat:fat + 2] == lines[at:at + 2],
                 "full output differs at %r: %r\n%s", raw,
                 flines[fat:fat + 2], ctx())
            width = len(mm.group(0)) - 2
            at += 2
            fat += 2
            positioned += 1
            indented += stripped != line
        # details
        pre = " " * width + "| "
        got = []
        while fat < len(flines) and flines[fat].startswith(pre) and \
                not (case["details"] is None and at < len(lines) and
                     flines[fat] == lines[at]):
            got.append(flines[fat][len(pre):])
            fat += 1
        with_details += bool(got)
        if case["details"] is not None and m.kind.startswith("check "):
            want = [l.rstrip() for l in case["details"][m.msg] or []]
            need(got == want, "details of %r: expected %r, got %r\n%s", raw,
                 want, got, ctx())
    need(at == len(lines), "more output without details than messages: %r\n"
         "%s", lines[at:], ctx())
    need(fat == len(flines), "more output than messages and details: %r\n%s",
         flines[fat:], ctx())
    return (positioned >= 2 and (indented or with_details) > 0,
            "%s %s %s" % ("positions" if positioned else "none",
                          "indented" if indented else "",
                          "details" if with_details else ""))
