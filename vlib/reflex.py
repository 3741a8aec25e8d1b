"""Independent reference lexer, written from the language reference."""
import re
from fractions import Fraction

KEYWORDS = set("""abs abstract and checks else elsif enum error exists extends
false fatal final forall freeze if implies import in not null optional or
package section separator then true tuple type warning xor""".split())

SINGLE = {"(": "BRA", ")": "KET", "{": "C_BRA", "}": "C_KET", "[": "S_BRA",
          "]": "S_KET", ",": "COMMA", "@": "AT", ":": "COLON",
          ";": "SEMICOLON"}

IDENT  = re.compile(r"[a-zA-Z][a-zA-Z0-9_]*")
DEC    = re.compile(r"[0-9]+(?:_[0-9]+)*")
HEX    = re.compile(r"0x[0-9a-fA-F]+(?:_[0-9a-fA-F]+)*")
BIN    = re.compile(r"0b[01]+(?:_[01]+)*")
FRAC   = re.compile(r"\.[0-9]+(?:_[0-9]+)*")
OPER   = re.compile(r"\*\*|==|<=|>=|!=|[*/%+\-<>]")


class Bad(Exception):
    pass


def triple_value(body):
    """LRM Complex_String_Value"""
    body = body.strip()
    lines = body.split("\n")
    rest = [l for l in lines[1:] if l.strip()]
    common = None
    for l in rest:
        ws = re.match(r"[ \t]*", l).group(0)
        if common is None:
            common = ws
        else:
            n = 0
            while n < len(common) and n < len(ws) and common[n] == ws[n]:
                n += 1
            common = common[:n]
    k = len(common or "")
    out = [lines[0].rstrip()]
    for l in lines[1:]:
        out.append(l[k:].rstrip() if l.strip() else "")
    return "\n".join(out)


def one(text, p):
    """-> (kind, value, end) or raise Bad"""
    c = text[p]
    n = len(text)
    nx = text[p + 1] if p + 1 < n else ""
    if text.startswith("//", p):
        e = text.find("\n", p)
        return "COMMENT", None, n if e < 0 else e
    if text.startswith("/*", p):
        e = text.find("*/", p + 2)
        return "COMMENT", None, n if e < 0 else e + 2
    m = IDENT.match(text, p)
    if m:
        w = m.group(0)
        return ("KEYWORD" if w in KEYWORDS else "IDENTIFIER"), w, m.end()
    if c in SINGLE:
        return SINGLE[c], None, p + 1
    if c == "=":
        if nx == ">":
            return "ARROW", None, p + 2
        if nx == "=":
            return "OPERATOR", "==", p + 2
        return "ASSIGN", None, p + 1
    if c == ".":
        if nx == ".":
            return "RANGE", None, p + 2
        return "DOT", None, p + 1
    m = OPER.match(text, p)
    if m:
        return "OPERATOR", m.group(0), m.end()
    for q in ('"""', "'''"):
        if text.startswith(q, p):
            e = text.find(q, p + 3)
            if e < 0:
                raise Bad("unterminated")
            return "STRING", triple_value(text[p + 3:e]), e + 3
    if c == '"':
        e = p + 1
        val = ""
        while True:
            if e >= n or text[e] == "\n":
                raise Bad("string")
            if text[e] == "\\" and e + 1 < n and text[e + 1] == '"':
                val += '"'
                e += 2
                continue
            if text[e] == '"':
                return "STRING", val, e + 1
            val += text[e]
            e += 1
    if c in "0123456789":
        if nx == "x" and c == "0":
            m, base, bad = HEX.match(text, p), 16, ""
        elif nx == "b" and c == "0":
            m, base, bad = BIN.match(text, p), 2, "23456789abcdefABCDEF"
        else:
            m, base, bad = DEC.match(text, p), 10, "abcdefABCDEF"
        if not m:
            raise Bad("digits")
        e = m.end()
        digits = m.group(0).replace("_", "")

        def after(e):
            if e < n and (text[e] == "_" or text[e] in bad):
                raise Bad("digit")
        after(e)
        if e < n and text[e] == "." and not text.startswith("..", e):
            if base != 10:
                raise Bad("point")
            f = FRAC.match(text, e)
            if not f:
                raise Bad("fraction")
            e = f.end()
            after(e)
            if e < n and text[e] == "." and not text.startswith("..", e):
                raise Bad("point")
            fd = f.group(0)[1:].replace("_", "")
            return "DECIMAL", \
                Fraction(int(digits + fd), 10 ** len(fd)), e
        if base == 10:
            return "INTEGER", int(digits), e
        return "INTEGER", int(digits[2:], base), e
    raise Bad("char")


def lex(text):
    """-> (tokens, error) where tokens is a list of
    (kind, value, start, end, line, col) and error is None or (line, col) of
    the first offending token"""
    toks = []
    p = 0
    n = len(text)
    while True:
        while p < n and text[p].isspace():
            p += 1
        if p >= n:
            return toks, None
        line = text.count("\n", 0, p) + 1
        col = p - (text.rfind("\n", 0, p) + 1) + 1
        try:
            kind, value, end = one(text, p)
        except Bad:
            return toks, (line, col)
        toks.append((kind, value, p, end, line, col))
        p = end
