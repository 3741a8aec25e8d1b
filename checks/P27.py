"""P27: requirement definitions and references in Sphinx documentation -
every build of a history of edits shows exactly what the sources say."""
import importlib.util
import io
import os
import re
import shutil
import sys
import time
import xml.etree.ElementTree as ET
import zlib
from collections import Counter

from vlib import api
from vlib.api import need
from vlib.core import forked

ID = "P27"
RULE = ("at least two builds with an edit to definitions in between, or"
        " documents which are read in parallel, or pages rendered from TRLC")
QUICK = 1200
THOROUGH = 40000

NAMES = ["P.x", "P.xx", "P.X", "p.x", "Q.x", "Lib_A.REQ_001",
         "Lib_A.REQ_01", "a.b", "P.y", "z.z", "_q", "1a", "\u00c4.b"]
DOCS = ["a", "b", "sub/a", "sub/deep/c", "x/sources/y", "q/r", "d_e",
        "z", "m_1", "m_2", "m_3"]
TITLES = ["the title", "P.x", "x", "a, b", "see also"]


# ------------------------------------------------------------- generator

def near(R, n):
    """almost a name"""
    return R.choice([n.split(".")[-1], n.split(".")[0], n[:-1], n + "1",
                     n.lower(), n.upper(), n.swapcase(), "requirement." + n,
                     "requirement-" + n, n.replace(".", "-"),
                     n.replace("_", "-"), "A." + n, "." + n,
                     n.replace(".", "..")]).rstrip("_") or "P.nope"


def gen_ref(R, names):
    n = R.choice(names) if R.bool(75) else \
        R.choice(NAMES + ["P.nope"]) if R.bool(50) else \
        near(R, R.choice(names))
    return [R.choice(["upstream", "downstream"]), n,
            R.choice(TITLES) if R.bool(35) else None]


def gen_block(R, names, depth=0):
    k = R.weighted((8, "def"), (6, "para"), (2, "list"), (1, "literal"),
                   (1, "comment"), (1, "note" if depth == 0 else "para"),
                   (1, "head" if depth == 0 else "para"),
                   (1, "include" if depth == 0 else "def"))
    if k == "def":
        n = [R.choice(names)]
        if R.bool(6):
            m = R.choice(names)
            if m not in n:
                n.append(m)
        body = R.list(0, 2, lambda: gen_block(R, names, depth + 1)) \
            if depth < 2 and R.bool(60) else []
        return ["def", n, body]
    if k == "para":
        return ["para", R.list(1, 3, lambda: gen_ref(R, names))]
    if k == "list":
        return ["list", R.list(1, 3, lambda: gen_ref(R, names))]
    if k in ("literal", "comment"):
        return [k, R.choice(names), gen_ref(R, names)]
    if k == "note":
        return ["note", R.list(1, 2, lambda: gen_block(R, names, 1))]
    if k == "head":
        return ["head", "Head %u" % R.int(1, 9)]
    return ["include", R.choice(["i", "j"])]


def gen_doc(R, names):
    return R.list(1, 5, lambda: gen_block(R, names))


def strip_includes(blocks):
    return [b for b in blocks if b[0] not in ("include", "head")] or \
        [["para", [["upstream", "P.x", None]]]]


def gen(R):
    if R.bool(12):
        return gen_trlc(R)
    names = R.sample(NAMES, R.int(1, 5))
    many = R.bool(15)
    docs = R.sample(DOCS, R.int(7, len(DOCS)) if many else R.int(1, 4))
    incs = {i: strip_includes(gen_doc(R, names)) for i in ("i", "j")}
    cur = {d: gen_doc(R, names) for d in docs}
    nsteps = R.weighted((2, 1), (3, 2), (3, 3), (2, 5))
    steps = []
    for k in range(nsteps):
        if k:
            for _ in range(R.int(1, 3)):
                have = sorted(cur)
                op = R.weighted((5, "edit"), (2, "delete"), (2, "add"),
                                (2, "rename"), (1, "touch"), (1, "inc"),
                                (2, "drop"), (1, "move"))
                if op == "add" or not have:
                    free = [d for d in DOCS if d not in cur]
                    if free:
                        cur[R.choice(free)] = gen_doc(R, names)
                elif op == "edit":
                    d = R.choice(have)
                    cur[d] = list(cur[d])
                    cur[d][R.int(0, len(cur[d]) - 1)] = gen_block(R, names)
                elif op == "drop":
                    d = R.choice(have)
                    cur[d] = list(cur[d])
                    if len(cur[d]) > 1:
                        del cur[d][R.int(0, len(cur[d]) - 1)]
                elif op == "delete":
                    if len(have) > 1:
                        del cur[R.choice(have)]
                elif op == "rename":
                    free = [d for d in DOCS if d not in cur]
                    if free:
                        cur[R.choice(free)] = cur.pop(R.choice(have))
                elif op == "move":
                    d, e = R.choice(have), R.choice(have)
                    if d != e and len(cur[d]) > 1:
                        cur[d] = list(cur[d])
                        b = cur[d].pop(R.int(0, len(cur[d]) - 1))
                        cur[e] = cur[e] + [b]
                elif op == "inc":
                    incs = dict(incs)
                    incs[R.choice(["i", "j"])] = \
                        strip_includes(gen_doc(R, names))
                else:
                    # changes nothing that matters
                    d = R.choice(have)
                    cur[d] = [["comment", "P.x", ["upstream", "P.x", None]]] \
                        + cur[d]
        steps.append({"docs": dict(cur), "incs": dict(incs),
                      "parallel": R.choice([2, 3]) if R.bool(
                          50 if many else 5) else 0,
                      "html": R.bool(8)})
    return {"mode": "docs", "steps": steps}


def gen_trlc(R):
    """records in several files; one page is rendered per file"""
    nfiles = R.int(1, 4)
    recs = []
    for i in range(R.int(1, 8)):
        recs.append({"pkg": R.choice(["P", "Q"]), "name": "%s_%u" % (
            R.choice(["req", "REQ", "a"]), i), "file": R.int(0, nfiles - 1),
            "sect": R.choice([None, None, "One", "Two"]), "refs": []})
    for f in range(nfiles):
        # a file belongs to one package
        for r in recs:
            if r["file"] == f:
                pkg = r["pkg"]
                for q in recs:
                    if q["file"] == f:
                        q["pkg"] = pkg
                break
    for r in recs:
        cand = [q for q in recs if r["pkg"] == q["pkg"] or q["pkg"] == "P"]
        for _ in range(R.weighted((2, 0), (3, 1), (2, 2))):
            r["refs"].append([recs.index(R.choice(cand))
                              for _ in range(R.weighted((3, 1), (1, 2)))])
    return {"mode": "trlc", "recs": recs, "nfiles": nfiles}


# ----------------------------------------------------------------- model

class Page:
    """what one document defines and refers to"""
    def __init__(self):
        self.lines = []
        self.defs = []
        self.refs = []             # (kind, target, title, line or None)


def role(ref):
    kind, target, title = ref
    if title is None:
        return ":requirement:%s-ref:`%s`" % (kind, target)
    return ":requirement:%s-ref:`%s <%s>`" % (kind, title, target)


def write_blocks(page, blocks, ind, incs, exact=True):
    pad = " " * ind
    for b in blocks:
        if b[0] == "def":
            head = pad + ".. requirement:definition:: "
            page.lines.append(head + b[1][0])
            for n in b[1][1:]:
                page.lines.append(" " * len(head) + n)
            page.lines.append("")
            page.defs += b[1]
            write_blocks(page, b[2], ind + 3, incs, exact)
        elif b[0] == "para":
            page.lines.append(pad + "see " + ", ".join(map(role, b[1])) + ".")
            for r in b[1]:
                page.refs.append(tuple(r) +
                                 (len(page.lines) if exact else None,))
        elif b[0] == "list":
            for r in b[1]:
                page.lines.append(pad + "* item " + role(r))
                page.refs.append(tuple(r) + (None,))
        elif b[0] == "literal":
            page.lines += [pad + "Example::", "",
                           pad + "  .. requirement:definition:: " + b[1], "",
                           pad + "  " + role(b[2])]
        elif b[0] == "comment":
            page.lines += [pad + "..", pad + "   requirement:definition:: " +
                           b[1], pad + "   " + role(b[2])]
        elif b[0] == "note":
            page.lines += [pad + ".. note::", ""]
            write_blocks(page, b[1], ind + 3, incs, exact)
        elif b[0] == "head":
            page.lines += [b[1], "-" * len(b[1])]
        else:
            page.lines.append(".. include:: /%s.inc" % b[1])
            sub = Page()
            write_blocks(sub, incs[b[1]], 0, incs, False)
            page.defs += sub.defs
            page.refs += sub.refs
        page.lines.append("")


def model(step):
    pages = {}
    for d, blocks in step["docs"].items():
        p = Page()
        t = "Page " + d.replace("/", " ")
        p.lines += [t, "=" * len(t), ""]
        write_blocks(p, blocks, 0, step["incs"])
        pages[d] = p
    files = {d + ".rst": "\n".join(p.lines) for d, p in pages.items()}
    files["index.rst"] = "Index\n=====\n\ntext\n"
    pages["index"] = Page()
    for i, blocks in step["incs"].items():
        p = Page()
        write_blocks(p, blocks, 0, {})
        files[i + ".inc"] = "\n".join(p.lines)
    return pages, files


# ----------------------------------------------------------------- driver

def extension():
    if "trlc_ext" not in sys.modules:
        spec = importlib.util.spec_from_file_location(
            "trlc_ext", os.path.join(api.REPO, "tools", "sphinx",
                                     "extensions", "trlc", "trlc.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["trlc_ext"] = m
        spec.loader.exec_module(m)
    return sys.modules["trlc_ext"]


def build(src, out, builder, parallel):
    from sphinx.application import Sphinx
    extension()
    warning = io.StringIO()
    app = Sphinx(src, None, os.path.join(out, builder),
                 os.path.join(out, "doctrees"), builder,
                 confoverrides={"extensions": ["trlc_ext"],
                                "html_theme": "basic"},
                 status=None, warning=warning, parallel=parallel)
    app.build(force_all=True)
    text = re.sub(r"\x1b\[[0-9;]*m", "", warning.getvalue())
    return app, text


WARN = re.compile(r"WARNING: \((?P<doc>.*?\.rst)(?::(?P<line>\d+))?\): +"
                  r"'(?P<name>.*)' (?P<what>not found|is ambiguous "
                  r"\((?P<n>\d+) targets found\))$")


def pretty(doc):
    i = doc.find("_sources/")
    return (doc if i < 0 else doc[i + len("_sources/"):]) + ".rst"


def read_page(path):
    """-> ([anchor of a definition], [(role, text, link or None)])"""
    root = ET.parse(path).getroot()
    defs, refs = [], []
    for n in root.iter("desc_signature"):
        defs.append(n.get("ids"))
    link = {}
    for n in root.iter("reference"):
        for c in n:
            link[c] = n
    for n in root.iter():
        cl = (n.get("classes") or "").split()
        for c in cl:
            if c in ("requirement-upstream-ref",
                     "requirement-downstream-ref"):
                l = link.get(n)
                refs.append((c.split("-")[1], "".join(n.itertext()),
                             None if l is None else
                             l.get("refuri") or "#" + l.get("refid")))
    return defs, refs


def check_build(pages, app, text, out, html, strict=True):
    where = {}
    for d in sorted(pages):
        for n in pages[d].defs:
            where.setdefault(n, []).append(d)

    # references
    want_warn = Counter()
    lines = {}
    for d in sorted(pages):
        exp = []
        for kind, target, title, line in pages[d].refs:
            at = where.get(target, [])
            if len(at) == 1:
                link = ("#" if at[0] == d else rel(d, at[0]) + "#") + \
                    "requirement-" + target
            else:
                link = None
                key = (pretty(d), target, len(at))
                want_warn[key] += 1
                lines.setdefault(key, set()).add(line)
            exp.append((kind, target if title is None else title, link))
        defs, refs = read_page(os.path.join(out, "xml", d + ".xml"))
        want = Counter("requirement-" + n for n in pages[d].defs)
        got = Counter(x for i in defs for x in (i or "").split())
        need(got == want,
             "page %s has the anchors %r, defined are %r" %
             (d, sorted(got.elements()), sorted(want.elements())))
        need(refs == exp,
             "references of page %s are\n%r\nbut should be\n%r" %
             (d, refs, exp))

    # warnings
    got_warn = Counter()
    for l in text.split("\n"):
        m = WARN.match(l)
        if m is None:
            need("not found" not in l or "requirement" not in l,
                 "unexpected warning: " + l)
            need("targets found" not in l, "unexpected warning: " + l)
            need("Unknown interpreted text role" not in l and
                 "Unknown directive" not in l, l)
            continue
        key = (m.group("doc"), m.group("name"), int(m.group("n") or 0))
        got_warn[key] += 1
        if key in lines and m.group("line") and None not in lines[key] and \
                strict:
            need(int(m.group("line")) in lines[key],
                 "%s: references are in lines %r" % (l, sorted(lines[key])))
    need(got_warn == want_warn,
         "warnings (document, name, targets) are\n%r\nbut should be\n%r" %
         (sorted(got_warn.items()), sorted(want_warn.items())))

    # index
    ext = extension()
    domain = app.env.get_domain("requirement")
    content, _ = ext.RequirementsIndex(domain).generate()
    check_index([(h, [(e[0], e[2], e[3]) for e in es]) for h, es in content],
                where)
    if html:
        check_html(out, where)


def rel(frm, to):
    return os.path.relpath(to, os.path.dirname(frm) or ".")


def check_index(content, where):
    got = Counter()
    heads = []
    for h, entries in content:
        heads.append(h)
        names = [e[0] for e in entries]
        need(names == sorted(names),
             "index below %s is not sorted: %r" % (h, names))
        for name, doc, anchor in entries:
            got[name, doc] += 1
            need(anchor == "requirement-" + name,
                 "index links %s to %s" % (name, anchor))
            need(h == (name[0].upper() if name[0].isalpha() else "?"),
                 "index has %s below %s" % (name, h))
    need(len(set(heads)) == len(heads), "index repeats headings %r" % heads)
    need(heads == sorted(heads), "index headings are %r" % heads)
    want = Counter((n, d) for n, ds in where.items() for d in ds)
    need(got == want, "index has\n%r\nbut defined are\n%r" %
         (sorted(got.items()), sorted(want.items())))


def check_html(out, where):
    out = os.path.join(out, "html")
    name = os.path.join(out, "requirement-requirement.html")
    if not where:
        need(not os.path.exists(name) or
             "requirement-requirement" not in open(
                 name, encoding="utf-8").read().split("<table", 1)[-1],
             "index of an empty set of requirements")
    else:
        with open(name, encoding="utf-8") as fd:
            page = fd.read()
        got = Counter(re.findall(
            r'<a href="([^"]*)\.html#requirement-([^"]*)">', page))
        want = Counter((d, n) for n, ds in where.items() for d in ds)
        need(got == want, "the index page links to\n%r\nbut defined are\n%r" %
             (sorted(got.items()), sorted(want.items())))
    with open(os.path.join(out, "objects.inv"), "rb") as fd:
        inv = zlib.decompress(fd.read().split(b"\n", 4)[4]).decode("utf-8")
    got = Counter()
    for l in inv.splitlines():
        m = re.match(r"(\S+) requirement:(\S+) -?\d+ (\S+) (.*)$", l)
        if m:
            n = m.group(4) if m.group(4) != "-" else m.group(1)
            uri = m.group(3)
            if uri.endswith("$"):
                uri = uri[:-1] + m.group(1)
            need(uri.endswith(".html#requirement-" + n),
                 "inventory entry " + l)
            got[n, uri.split(".html#")[0]] += 1
    want = Counter((n, d) for n, ds in where.items() for d in ds)
    need(set(got) == set(want),
         "the inventory has\n%r\nbut defined are\n%r" %
         (sorted(got.items()), sorted(want.items())))


def sync(src, old, files):
    """make the source directory hold exactly these files"""
    for f in sorted(set(old) - set(files)):
        os.unlink(os.path.join(src, f))
    for f, t in sorted(files.items()):
        if old.get(f) != t:
            p = os.path.join(src, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as fd:
                fd.write(t)
            # finer than the clock of the file system
            now = time.time_ns()
            os.utime(p, ns=(now, now))


def run_docs(case, src, out):
    old = {}
    for i, step in enumerate(case["steps"]):
        pages, files = model(step)
        sync(src, old, files)
        old = files
        app, text = build(src, out, "xml", step["parallel"])
        try:
            check_build(pages, app, text, out, False)
            if step["html"]:
                app, _ = build(src, out, "html", step["parallel"])
                check_build(pages, app, text, out, True)
        except api.Violation as v:
            raise api.Violation("build %u: %s" % (i + 1, v))
    return None


def run_trlc(case, src, out):
    tool = load_rst()
    recs = case["recs"]
    base = os.path.join(out, "trlc")
    os.makedirs(base)
    body = "type Req { text optional Markup_String }\n"
    with open(os.path.join(base, "p.rsl"), "w", encoding="utf-8") as fd:
        fd.write("package P\n" + body)
    with open(os.path.join(base, "q.rsl"), "w", encoding="utf-8") as fd:
        fd.write("package Q\nimport P\n" + body)
    pages = {"index": Page()}
    names = []
    for f in range(case["nfiles"]):
        mine = [r for r in recs if r["file"] == f]
        pkg = mine[0]["pkg"] if mine else "P"
        text = "package %s\n" % pkg + ("import P\n" if pkg == "Q" else "")
        page = Page()
        ordered = [r for r in mine if r["sect"] is None]
        for s in ("One", "Two"):
            ordered += [r for r in mine if r["sect"] == s]
        for s in (None, "One", "Two"):
            sub = [r for r in mine if r["sect"] == s]
            if s and sub:
                text += 'section "%s" {\n' % s
            for r in sub:
                text += "Req %s {\n" % r["name"]
                page.defs.append(r["pkg"] + "." + r["name"])
                parts = []
                for group in r["refs"]:
                    spell = []
                    for k in group:
                        q = recs[k]
                        spell.append(q["name"] if q["pkg"] == pkg else
                                     q["pkg"] + "." + q["name"])
                        page.refs.append(
                            ("upstream", q["pkg"] + "." + q["name"],
                             q["name"], None))
                    parts.append("see [[%s]]" % ", ".join(spell))
                if parts:
                    text += '  text = "%s"\n' % " and ".join(parts)
                text += "}\n"
            if s and sub:
                text += "}\n"
        n = os.path.join(base, "f%u.trlc" % f)
        with open(n, "w", encoding="utf-8") as fd:
            fd.write(text)
        names.append(n)
        pages["f%u" % f] = page
    for f, n in enumerate(names):
        r = tool.TRLCRST(source_files=[n],
                         dep_files=[x for x in names if x != n] +
                         [os.path.join(base, x) for x in ("p.rsl", "q.rsl")])
        r.parse_trlc_files()
        r.convert_symbols_to_tree()
        r.render_to_file(os.path.join(src, "f%u.rst" % f), title="Page",
                         fields=["text"])
    with open(os.path.join(src, "index.rst"), "w", encoding="utf-8") as fd:
        fd.write("Index\n=====\n\ntext\n")
    app, text = build(src, out, "xml", 0)
    check_build(pages, app, text, out, False, False)


def load_rst():
    if "trlc_rst_tool" not in sys.modules:
        spec = importlib.util.spec_from_file_location(
            "trlc_rst_tool", os.path.join(api.REPO, "tools", "trlc_rst",
                                          "trlc_rst.py"))
        m = importlib.util.module_from_spec(spec)
        sys.modules["trlc_rst_tool"] = m
        spec.loader.exec_module(m)
    return sys.modules["trlc_rst_tool"]


def check(case):
    root = os.path.join(api.scratch(), "sphinx")
    shutil.rmtree(root, ignore_errors=True)
    src, out = os.path.join(root, "src"), os.path.join(root, "out")
    os.makedirs(src)
    os.makedirs(out)
    # Warm up outside of the child: importing Sphinx takes long.
    import sphinx.application          # noqa: F401
    import sphinx.builders.html        # noqa: F401
    import sphinx.builders.xml         # noqa: F401
    extension()
    if case["mode"] == "trlc":
        load_rst()
    fn = run_docs if case["mode"] == "docs" else run_trlc
    try:
        forked(lambda: fn(case, src, out), 120)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if case["mode"] == "trlc":
        return True, "trlc"
    steps = case["steps"]

    def defs(step):
        return {d: sorted(p.defs) for d, p in model(step)[0].items()}
    changed = any(defs(a) != defs(b) for a, b in zip(steps, steps[1:]))
    par = any(s["parallel"] and len(s["docs"]) > 5 for s in steps)
    return changed or par, ("par" if par else "seq") + \
        ("-edit" if changed else "")
