"""P01: lexical fidelity - differential against an independent lexer."""
import io
from fractions import Fraction
from vlib.api import Message_Handler, need
from vlib import reflex
from trlc.lexer import TRLC_Lexer
from trlc.errors import TRLC_Error

ID = "P01"
RULE = ("the text has at least 4 tokens of at least 3 kinds, or is rejected "
        "by the reference lexer after at least one good token")
QUICK = 200000
THOROUGH = 400000
ASSUMPTIONS = ["numeric literals have at most 4000 digits"]

WORDS = sorted(reflex.KEYWORDS) + ["x", "b", "foo", "Foo_Bar", "a1", "x9_",
                                   "Ends_", "Integer", "e5", "packages",
                                   "Type", "NULL", "trueish", "b01", "ifx"]
PUNCT = ["(", ")", "{", "}", "[", "]", ",", "@", ":", ";", "/", "%", "+",
         "-", "=", "=>", "==", ".", "..", "<", ">", "<=", ">=", "!=", "*",
         "**"]
WS = [" ", "\n", "", "\t", "  ", " \n ", "\r\n", "\u00a0", "\n\n", "\x0b"]
SOUP = list("\"'\\/*.=<>!_ \n\t0123xXbBeaf-+@#$?&|~^`;:") + \
    ["é", "ß", "٣", "日", "\u2028", "\x00", "😀", "²"]


def g_int(R):
    k = R.int(0, 3)
    if k == 0:
        s = "".join(R.choice("0123456789") for _ in range(R.int(1, 12)))
        pre = ""
    elif k == 1:
        pre = "0x"
        s = "".join(R.choice("0123456789abcdefABCDEF")
                    for _ in range(R.int(1, 10)))
    elif k == 2:
        pre = "0b"
        s = "".join(R.choice("01") for _ in range(R.int(1, 12)))
    else:
        pre = ""
        s = "0" * R.int(0, 3) + str(R.int(0, 10 ** 30))
    return pre + under(R, s)


def under(R, s):
    out = s[0]
    for c in s[1:]:
        if R.bool(12):
            out += "_"
        out += c
    return out


def g_dec(R):
    a = "".join(R.choice("0123456789") for _ in range(R.int(1, 8)))
    b = "".join(R.choice("0123456789") for _ in range(R.int(1, 8)))
    return under(R, a) + "." + under(R, b)


def g_chars(R, alphabet, hi):
    return "".join(R.choice(alphabet) for _ in range(R.int(0, hi)))


TEXT = list("abc XYZ019.,:;!?()[]{}<>=+-*/%@#\\\\''\t") + ["\\\"", "é", "日"]


def g_str(R):
    k = R.int(0, 2)
    if k == 0:
        s = g_chars(R, TEXT, 14)
        if s.endswith("\\"):
            s += "n"
        return '"' + s + '"'
    q = '"""' if k == 1 else "'''"
    lines = []
    for _ in range(R.int(0, 6)):
        ind = R.choice(["", "  ", "    ", "\t", " \t", "      ", "   "])
        body = R.weighted((4, "x"), (1, "")) and \
            g_chars(R, list("abc de.,'\"\\*/") + ["\u2028", "\x0c", "\r"], 10)
        trail = R.choice(["", "", " ", "\t ", "\r"])
        lines.append(ind + body + trail)
    s = "\n".join(lines)
    return q + s + q


def g_comment(R):
    if R.bool():
        return "//" + g_chars(R, list("abc /*\"'.0x\t"), 10) + "\n"
    return "/*" + g_chars(R, list("abc /*\"'.\n0x"), 10) + "*/"


def g_item(R):
    k = R.weighted((20, "w"), (22, "p"), (14, "i"), (10, "d"), (14, "s"),
                   (8, "c"), (4, "soup"))
    if k == "w":
        return R.choice(WORDS)
    if k == "p":
        return R.choice(PUNCT)
    if k == "i":
        return g_int(R)
    if k == "d":
        return g_dec(R)
    if k == "s":
        return g_str(R)
    if k == "c":
        return g_comment(R)
    return g_chars(R, SOUP, 5)


def gen(R):
    mode = R.weighted((6, "tokens"), (2, "mutated"), (1, "soup"))
    if mode == "soup":
        return {"text": g_chars(R, SOUP + WORDS, 25)}
    text = R.choice(WS)
    for _ in range(R.int(0, 14)):
        text += g_item(R)
        text += R.weighted((5, " "), (2, "\n"), (2, ""), (2, R.choice(WS)))
    if mode == "mutated":
        for _ in range(R.int(1, 3)):
            if not text:
                break
            i = R.int(0, len(text) - 1)
            k = R.int(0, 3)
            if k == 0:
                text = text[:i] + text[i + 1:]
            elif k == 1:
                text = text[:i] + R.choice(SOUP) + text[i:]
            elif k == 2:
                text = text[:i]
            else:
                text = text[:i] + R.choice(SOUP) + text[i + 1:]
    return {"text": text}


FIXED = [{"text": t} for t in (
    "", "'''", '"""', "''''''", '""""""', "'''a", "/*/ x */", "/*/", "/**/ x",
    "1..2", "0x1..0x2", "1.5..2", "0b1..2", "0xg", "0b2", "1_", "1__2",
    "1.", "1.a", "1.2.3", "0x1.5", "12ab", "12g", '"\\""', '"a\\\\"', "!",
    "\n\nfoo '''a\n   b\n\n  c  \n'''", "'''\n  a \n b'''", "=>==", "***",
    "//", "// x", "\u00e9", "\u0663", "\nfoo", "foo", "a\u0301")]


def real(text):
    out = io.StringIO()
    mh = Message_Handler(brief=True, out=out)
    toks = []
    try:
        lx = TRLC_Lexer(mh, "f.trlc", text)
        while True:
            t = lx.token()
            if t is None:
                return toks, None, mh
            toks.append(t)
            if len(toks) > len(text) + 2:
                need(False, "lexer does not make progress on %r", text)
    except TRLC_Error as err:
        return toks, err, mh


def check(case):
    text = case["text"]
    exp, experr = reflex.lex(text)
    got, err, mh = real(text)
    need((err is None) == (experr is None),
         "text %r: reference %s, implementation %s", text,
         "rejects at %s" % (experr,) if experr else "accepts",
         "rejects: %s" % err.message if err else "accepts")
    need(len(got) == len(exp), "text %r: %u tokens instead of %u: %s",
         text, len(got), len(exp), got)
    for g, (kind, value, start, end, line, col) in zip(got, exp):
        need(g.kind == kind, "text %r: token %r has kind %s, expected %s",
             text, text[start:end], g.kind, kind)
        if kind != "COMMENT":
            need(g.value == value and type(g.value) is type(value),
                 "text %r: token %r has value %r, expected %r",
                 text, text[start:end], g.value, value)
        loc = g.location
        need((loc.line_no, loc.col_no) == (line, col),
             "text %r: token %r at %s:%s, expected %s:%s", text,
             text[start:end], loc.line_no, loc.col_no, line, col)
        need(loc.text() == text[start:end],
             "text %r: token covers %r, expected %r", text, loc.text(),
             text[start:end])
        endloc = loc.get_end_location()
        eline = text.count("\n", 0, end) + 1 if text[end - 1] != "\n" else None
        if eline is not None:
            ecol = (end - 1) - (text.rfind("\n", 0, end) + 1) + 1
            need((endloc.line_no, endloc.col_no) == (eline, ecol),
                 "text %r: token %r ends at %s:%s, expected %s:%s", text,
                 text[start:end], endloc.line_no, endloc.col_no, eline, ecol)
    if err:
        need(mh.errors == 1, "error count %u", mh.errors)
        need((err.location.line_no, err.location.col_no) == experr,
             "text %r: error reported at %s:%s, expected %s", text,
             err.location.line_no, err.location.col_no, experr)
    kinds = {e[0] for e in exp}
    if experr:
        return len(exp) >= 1, "rejected"
    return len(exp) >= 4 and len(kinds) >= 3, "accepted"
