"""P23: documents generated by trlc_rst - every record once, at its section,
with its fields, read back by an independent reader of the RST output."""
import contextlib
import io
import os
import re
import shutil
import sys

from vlib import api
from vlib.api import need

sys.path.insert(0, os.path.join(api.REPO, "tools", "trlc_rst"))
import trlc_rst                                   # noqa: E402

ID = "P23"
RULE = ("at least 3 records are rendered, one of them inside a section, with"
        " at least one description of two or more blocks or a reference")
QUICK = 16000
THOROUGH = 500000

FIELDS = {"description": "Markup_String", "rationale": "Markup_String",
          "n_items_in_it": "Integer", "flag": "Boolean", "kind": "Kind",
          "short_text": "String", "up": "Req"}
WORDS = ["shall", "system", "the", "when", "x1", "Z_2", "**bold**", "*it*",
         "``code``", "a:b", "caf\u00e9", "100%", "(see", "it's", "5.", "end.",
         "-", "&", "<tag>", "note:", "[x]", "#1", "a/b"]
HEADS = ["Safety", "Functional", "A/B", "ISO 26262", "\u00dcber", "x", "1.2",
         "A", "B", "Intro - first", "R\u00e9sum\u00e9 of it", "T.x"]
CODE = ["foo(bar)", "if x:", "- no item", "return 1", ".. comment", "a  b",
        "1. no item", "[a](b)c"[3:], "::"]


def inline(R, refs):
    """-> (source text, expected text)"""
    k = R.weighted((10, "w"), (2, "link"), (2, "ref"))
    if k == "w" or (k == "ref" and not refs):
        w = R.choice(WORDS)
        return w, w
    if k == "link":
        t, u = R.choice(["doc", "the manual", "x-y"]), \
            R.choice(["http://a.b/c?d=1", "../x.html", "a b"])
        return "[%s](%s)" % (t, u), "`%s <%s>`_" % (t, u)
    names, roles = [], []
    for _ in range(R.weighted((4, 1), (2, 2), (1, 3))):
        spell, name, fqn = R.choice(refs)
        names.append(spell)
        roles.append(":requirement:upstream-ref:`%s <%s>`" % (name, fqn))
    sep = R.choice([", ", ",", " , "])
    pad = R.choice(["", "", " "])
    return "[[" + pad + sep.join(names) + pad + "]]", ", ".join(roles)


def words(R, refs, lo, hi):
    while True:
        parts = [inline(R, refs) for _ in range(R.int(lo, hi))]
        if re.match(r"-|\d+\.|\.\. ", parts[0][0]):
            parts.insert(0, ("It", "It"))
        src, exp = [], []
        for s, e in parts:
            src.append(s)
            exp.append(e)
        if src[-1].endswith("::"):
            src.append("end")
            exp.append("end")
        out = ""
        for i, s in enumerate(src):
            out += (R.choice([" ", " ", " ", "  ", "\t"]) if i else "") + s
        return out, " ".join(exp)


def blocks(R, refs):
    """-> (source lines, expected blocks)"""
    lines, exp = [], []
    n = R.weighted((4, 1), (3, 2), (2, 3), (1, 5))
    prev = None
    for i in range(n):
        kinds = ["para", "para", "para", "list", "code", "image", "direct"]
        k = R.choice(kinds)
        # a blank line is needed unless one of the two is a list
        blank = True
        if prev in (None,):
            blank = False
        elif prev == "list" and k == "para" or prev == "para" and k == "list":
            blank = R.bool(60)
        if blank:
            lines += [""] * R.weighted((5, 1), (1, 2))
        if k == "para":
            src, e = [], []
            for _ in range(R.int(1, 3)):
                s, x = words(R, refs, 1, 5)
                src.append(s)
                e.append(x)
            if blank or prev != "list":
                exp.append(["para", " ".join(e)])
            else:
                exp.append(["para", " ".join(e)])
            lines += src
        elif k == "list":
            items = []
            num = R.bool(40)
            start = R.weighted((3, 1), (1, 9), (1, 99))
            for j in range(R.int(1, 3)):
                s, x = words(R, refs, 1, 4)
                m = "%u." % (j + start) if num else "-"
                lines.append(m + " " + s)
                items.append(m + " " + x)
            if prev == "list":
                # lists of different kinds separated by a blank line
                exp.append(["list", items])
            else:
                exp.append(["list", items])
        elif k == "code":
            s, x = words(R, refs, 1, 3)
            lines.append(s + "::")
            base = R.choice([1, 2, 4])
            code = []
            for j in range(R.int(1, 3)):
                ind = R.choice([0, 0, 2, 4]) if j else 0
                c = R.choice(CODE)
                lines.append(" " * (base + ind) + c)
                code.append(" " * ind + c)
            exp.append(["para", x + "::"])
            exp.append(["code", code])
        elif k == "image":
            alt = R.choice(["", "An image", "x"])
            path = R.choice(["a/b.png", "c.svg", "http://x/y.png"])
            lines.append("![%s](%s)" % (alt, path))
            exp.append(["direct", ".. image:: " + path,
                        [":alt: " + alt] if alt else []])
        else:
            name = R.choice(["image:: x.png", "note::", "list-table:: T"])
            lines.append(".. " + name)
            body = []
            for j in range(R.int(1, 3)):
                ind = R.choice([0, 0, 2]) if j else 0
                c = R.choice([":width: 50%", "text of it", "* - cell",
                              "- cell"])
                lines.append(" " * (3 + ind) + c)
                body.append(" " * ind + c)
            exp.append(["direct", ".. " + name, body])
        prev = k
    if len(lines) > 1 and all(l[:1] in ("", " ") for l in lines[1:]):
        # the common indentation of the lines after the first is removed
        lines += ["", "End"]
        exp.append(["para", "End"])
    return lines, exp


def literal(R, lines, ind):
    text = "\n".join(lines)
    if len(lines) == 1 and R.bool(60):
        return '"%s"' % text
    pad = " " * (ind + R.choice([0, 2]))
    return "'''\n" + "\n".join((pad + l) if l else
                               R.choice(["", "", pad])
                               for l in lines) + "\n" + \
        R.choice(["", " " * ind]) + "'''"


def gen(R):
    have = [f for f in FIELDS if f == "description" or R.bool(60)]
    pkgs = ["T"] if R.bool(60) else ["T", "Lib_A"]
    rsl = "package T\nenum Kind { hi lo_w }\ntype Req {\n"
    for f in have:
        rsl += "  %s optional %s\n" % (f, FIELDS[f])
    rsl += "}\n"
    if R.bool(30):
        rsl += "type Sub extends Req { own optional Integer }\n"
    files = {"t.rsl": rsl}
    nfiles = R.weighted((5, 1), (4, 2), (2, 3))
    names = ["REQ_001", "a", "B_2", "zz", "req_x", "M1", "n_n", "Long_Name_7",
             "q", "w2", "Y", "k9"]
    records = []
    plans = []
    todo = R.sample(names, R.int(1, 9))
    for i in range(nfiles):
        plans.append({"name": R.choice(["f%u", "sub/f%u", "A%u"]) % i +
                      ".trlc",
                      "pkg": R.choice(pkgs), "recs": []})
    for n in todo:
        p = R.choice(plans)
        p["recs"].append(n)
        records.append((n, p["pkg"] + "." + n, p["pkg"], p["name"]))
    out = {}
    for p in plans:
        refs = []
        for n, fqn, pk, _ in records:
            if pk == p["pkg"]:
                refs.append((n, n, fqn))
            if pk == p["pkg"] or pk == "T":
                refs.append((fqn, n, fqn))
        imp = "" if p["pkg"] == "T" else "import T\n"
        text = "package %s\n%s" % (p["pkg"], imp)
        path = []
        ty = "Req" if p["pkg"] == "T" else "T.Req"
        lit = "Kind" if p["pkg"] == "T" else "T.Kind"
        for n in p["recs"]:
            # move to another section?
            while R.bool(35):
                if path and R.bool(50):
                    path.pop()
                    text += "  " * len(path) + "}\n"
                elif len(path) < 3:
                    h = R.choice(HEADS)
                    if R.bool(8):
                        # a title that is also the full name of a record
                        h = R.choice(records)[1]
                    text += "  " * len(path) + 'section "%s" {\n' % h
                    path.append(h)
            ind = "  " * len(path)
            text += "%s%s %s {\n" % (ind, ty, n)
            vals = {}
            for f in R.sample(have, len(have)):
                if R.bool(30):
                    continue
                t = FIELDS[f]
                if t == "Markup_String":
                    lines, exp = blocks(R, refs)
                    v = literal(R, lines, len(ind) + 4)
                    vals[f] = {"blocks": exp, "one": len(lines) == 1}
                elif t == "Integer":
                    v = R.choice(["0", "7", "-3", "1_000", "0x10"])
                    vals[f] = str(int(v.replace("_", ""), 0))
                elif t == "Boolean":
                    v = R.choice(["true", "false"])
                    vals[f] = v.title()
                elif t == "Kind":
                    vals[f] = R.choice(["hi", "lo_w"])
                    v = lit + "." + vals[f]
                elif t == "String":
                    vals[f] = R.choice(["", "hi there", "a  b", "[[a]]",
                                        "[x](y)", "- x", "caf\u00e9",
                                        "it's: ok::"])
                    v = '"%s"' % vals[f]
                else:
                    if not refs:
                        continue
                    v, _, vals[f] = R.choice(refs)
                text += "%s  %s = %s\n" % (ind, f, v)
            text += ind + "}\n"
            fqn = p["pkg"] + "." + n
            out[fqn] = {"path": list(path), "file": p["name"], "vals": vals,
                        "name": n}
        while path:
            path.pop()
            text += "  " * len(path) + "}\n"
        files[p["name"]] = text
    case = {"files": files, "recs": out}
    case["title"] = R.choice([None, None, "", "My Doc", "\u00c4pfel", "T"])
    k = R.int(0, 3)
    fields = None
    if k:
        fl = R.sample(list(FIELDS) + ["nope"], R.int(1, 6))
        if k == 1:
            fl = R.sample(have, len(have))
        fields = fl
        if R.bool(25):
            fields = {f: R.choice(["L%u", "My label %u", "x%u"]) % i
                      for i, f in enumerate(fl)}
    case["fields"] = fields
    case["records"] = None
    if R.bool(30):
        case["records"] = R.subset(sorted(out), 60) + \
            R.choice([[], ["T.nope"], ["a"]])
    case["only"] = None
    case["mode"] = R.choice(["dir", "dir", "files"])
    if case["mode"] == "files":
        case["only"] = R.subset([p["name"] for p in plans], 60) or \
            [plans[0]["name"]]
    elif R.bool(30):
        case["only"] = R.subset([p["name"] for p in plans], 60)
    case["fqns"] = None
    if R.bool(60):
        case["fqns"] = R.sample(sorted(out), R.int(0, len(out))) + \
            R.choice([[], [], ["T.nope"]])
        R.shuffle(case["fqns"])
    case["cli"] = not isinstance(fields, dict) and R.bool(40)
    case["broken"] = R.bool(4)
    return case


# ---------------------------------------------------------------- reader

HEAD_CHARS = "=-^'"
DEF = ".. requirement:definition:: "


class Bad(Exception):
    pass


def is_item(line):
    return line.startswith("-") or re.match(r"\d+\.", line)


def read_body(lines):
    """blocks of RST text which starts at column 1"""
    res = []
    i = 0
    while i < len(lines):
        line = lines[i]
        if not line.strip():
            i += 1
            continue
        if line[0] == " ":
            raise Bad("unexpected indentation: %r" % line)
        if re.match(r"\.\. [a-zA-Z][\w-]*::", line):
            i += 1
            body = []
            while i < len(lines) and (not lines[i].strip() or
                                      lines[i][0] == " "):
                if lines[i].strip():
                    body.append(lines[i].rstrip())
                i += 1
            ind = min([len(b) - len(b.lstrip()) for b in body], default=0)
            res.append(["direct", line.rstrip(), [b[ind:] for b in body]])
            continue
        para = []
        while i < len(lines) and lines[i].strip():
            if lines[i][0] == " ":
                raise Bad("unexpected indentation: %r" % lines[i])
            para.append(" ".join(lines[i].split()))
            i += 1
        if is_item(para[0]):
            for l in para:
                if not is_item(l):
                    raise Bad("text directly after a list: %r" % l)
            res.append(["list", para])
            continue
        res.append(["para", " ".join(para)])
        if res[-1][1].endswith("::"):
            j = i
            while j < len(lines) and not lines[j].strip():
                j += 1
            if j < len(lines) and lines[j][0] == " ":
                if j == i:
                    raise Bad("no blank line before a literal block")
                code = []
                i = j
                while i < len(lines) and (not lines[i].strip() or
                                          lines[i][0] == " "):
                    if lines[i].strip():
                        code.append(lines[i].rstrip())
                    i += 1
                ind = min(len(c) - len(c.lstrip()) for c in code)
                res.append(["code", [c[ind:] for c in code]])
    return merge(res)


def merge(bl):
    """lists which follow each other are one list to the reader"""
    out = []
    for b in bl:
        if b[0] == "list" and out and out[-1][0] == "list":
            out[-1] = ["list", out[-1][1] + b[1]]
        else:
            out.append(b)
    return out


def read(text, base):
    """-> [(fqn, headings in effect, [(label, value)], blocks)]"""
    lines = text.split("\n")
    levels, stack, recs, heads = [], [], [], []
    i = 0
    while i < len(lines):
        line = lines[i]
        if not line.strip():
            i += 1
        elif line.startswith(DEF):
            fqn = line[len(DEF):]
            if i + 1 < len(lines) and lines[i + 1].strip():
                raise Bad("no blank line after the directive %s" % fqn)
            i += 1
            fl = []
            body = []
            while i < len(lines):
                l = lines[i]
                m = re.match(r":([^:]+): (.*)$", l.strip())
                if m and not any(b.strip() for b in body):
                    fl.append((m.group(1), m.group(2)))
                elif not l.strip() or l[0] == " ":
                    if l.strip() and not l.startswith("   "):
                        raise Bad("bad indentation: %r" % l)
                    body.append(l[3:])
                else:
                    break
                i += 1
            if not (i == len(lines) or not lines[i - 1].strip()):
                raise Bad("no blank line after %s" % fqn)
            recs.append((fqn, list(stack), fl, read_body(body)))
        else:
            if i + 1 == len(lines) or len(set(lines[i + 1])) != 1 or \
                    lines[i + 1][0] not in HEAD_CHARS or \
                    len(lines[i + 1]) != len(line):
                raise Bad("not a heading: %r" % lines[i:i + 2])
            c = lines[i + 1][0]
            if c not in levels:
                if len(levels) > len(stack):
                    raise Bad("inconsistent level of heading %r" % line)
                levels.append(c)
            k = levels.index(c)
            if k > len(stack):
                raise Bad("level skipped by heading %r" % line)
            stack = stack[:k] + [line]
            heads.append(list(stack))
            i += 2
    return recs, heads


# ----------------------------------------------------------------- oracle

def label(f):
    return " ".join(w[:1].upper() + w[1:].lower() for w in f.split("_"))


def want_record(vals, fields, title):
    fl, bl = [], []
    for f, lab in fields:
        v = vals.get(f)
        if v is None or v == "":
            continue
        if isinstance(v, dict):
            bl += v["blocks"]
        else:
            fl.append((lab, v))
    return fl, merge(bl)


def check(case):
    root = os.path.join(api.scratch(), "rst")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    cwd = os.getcwd()
    os.chdir(root)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            return decide(case, out)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def decide(case, log):
    files, recs = dict(case["files"]), case["recs"]
    if case["broken"]:
        n = sorted(files)[-1]
        files[n] += "\n}}"
    for n, t in files.items():
        n = os.path.join("in", n)
        os.makedirs(os.path.dirname(n), exist_ok=True)
        with open(n, "w", encoding="utf-8", newline="") as fd:
            fd.write(t)

    def path(n):
        return os.path.join("in", n)
    only = case["only"]
    if case["mode"] == "files":
        kw = {"source_files": [path(n) for n in only],
              "dep_files": [path(n) for n in files]}
    else:
        kw = {"input_directory": "in"}
        if only is not None:
            kw["source_files"] = [path(n) for n in only]
    fields = case["fields"]
    title = "Requirements" if case["title"] is None else case["title"]
    records = None if case["records"] is None else set(case["records"])

    def ctx():
        opts = {k: v for k, v in case.items() if k not in ("files", "recs")}
        return "\n%s\n%s\n%s" % (opts, log.getvalue(), api.show(files))

    def shown(text):
        return "\n=== output\n" + text + "\n===" + ctx()
    ro = trlc_rst.TRLCRST(**kw)
    if case["broken"]:
        try:
            ro.render("out.rst")
        except trlc_rst.TRLCParseError:
            need(not os.path.exists("out.rst"), "output in spite of errors%s",
                 ctx())
            return False, "broken"
        need(False, "errors in the input are ignored%s", ctx())
    if case["cli"] and not (case["records"] == [] or only == []):
        args = ["trlc_rst", "-o", "out.rst"]
        if case["mode"] == "files":
            args += ["--dep-files"] + kw["dep_files"]
        else:
            args += ["-i", "in"]
        if only is not None:
            args += ["--source-files"] + kw["source_files"]
        if case["title"] is not None:
            args += ["-t", title]
        if fields is not None:
            args += ["--fields"] + fields
        if records is not None:
            args += ["-r"] + case["records"]
        old = sys.argv
        sys.argv = args
        try:
            trlc_rst.main()
        finally:
            sys.argv = old
        ro.parse_trlc_files()
    else:
        a = {} if case["title"] is None else {"title": title}
        if fields is not None:
            a["fields"] = fields
        ro.render("out.rst", records=records, **a)
    with open("out.rst", encoding="utf-8", newline="") as fd:
        text = fd.read()

    if fields is None:
        norm = [("description", "Description")]
    elif isinstance(fields, dict):
        norm = list(fields.items())
    else:
        norm = [(f, label(f)) for f in fields]
    chosen = [f for f, r in recs.items()
              if (only is None or r["file"] in only) and
              (records is None or f in records)]

    # the document
    body = text
    if title:
        top = "%s\n%s\n" % (title, "=" * len(title))
        need(text.startswith(top), "no title %r%s", title, shown(text))
        got_title = [title]
    else:
        got_title = []
    try:
        got, heads = read(body, None)
    except Bad as e:
        need(False, "output is malformed: %s%s", e, shown(text))
    need(sorted(g[0] for g in got) == sorted(chosen),
         "rendered are the records %s, expected %s%s",
         sorted(g[0] for g in got), sorted(chosen), shown(text))
    for fqn, hd, fl, bl in got:
        r = recs[fqn]
        need(hd == got_title + r["path"], "%s is below %s, expected %s%s",
             fqn, hd, got_title + r["path"], shown(text))
        wfl, wbl = want_record(r["vals"], norm, title)
        need(fl == wfl, "%s has the fields\n%s, expected\n%s%s", fqn, fl,
             wfl, shown(text))
        need(bl == wbl, "%s has the content\n%s, expected\n%s%s", fqn, bl,
             wbl, shown(text))
    # sections appear once, and only where needed
    paths = [tuple(h[len(got_title):]) for h in heads]
    paths = [p for p in paths if p]
    want = {tuple(recs[f]["path"][:k + 1]) for f in chosen
            for k in range(len(recs[f]["path"]))}
    need(sorted(paths) == sorted(want), "sections are %s, expected %s%s",
         sorted(paths), sorted(want), shown(text))
    # order inside one section and file is that of the source
    pos = {g[0]: i for i, g in enumerate(got)}
    order = list(recs)
    for x, f in enumerate(order):
        for g in order[x + 1:]:
            if f in pos and g in pos and recs[f]["path"] == recs[g]["path"] \
                    and recs[f]["file"] == recs[g]["file"]:
                need(pos[f] < pos[g], "%s is not before %s%s", f, g,
                     shown(text))
    if len({recs[f]["file"] for f in chosen}) == 1:
        seen = []
        for f in chosen:
            for k in range(len(recs[f]["path"])):
                p = tuple(recs[f]["path"][:k + 1])
                if p not in seen:
                    seen.append(p)
        for p in paths:
            sib = [q for q in paths if q[:-1] == p[:-1]]
            need(sib == [q for q in seen if q[:-1] == p[:-1]],
                 "order of sections %s%s", sib, shown(text))

    # records without headings
    fqns = case["fqns"]
    a = {} if fields is None else {"fields": fields}
    text = ro.render_records_to_string(fqns=fqns, records=records, **a)
    sel = chosen if fqns is None else [f for f in fqns if f in chosen]
    try:
        got, heads = read(text, None)
    except Bad as e:
        need(False, "string is malformed: %s%s", e, shown(text))
    need(not heads, "headings in string%s", shown(text))
    names = [g[0] for g in got]
    need(names == sel if fqns is not None else sorted(names) == sorted(sel),
         "string has the records %s, expected %s%s", names, sel, shown(text))
    for fqn, _, fl, bl in got:
        wfl, wbl = want_record(recs[fqn]["vals"], norm, "")
        need((fl, bl) == (wfl, wbl), "%s has the content\n%s%s, expected\n"
             "%s%s%s", fqn, fl, bl, wfl, wbl, shown(text))

    # the table
    cols = [(f, lab) for f, lab in norm]
    link = None
    if fqns and len(fqns) % 2:
        def link(fqn, name):
            return ":ref:`%s|%s`" % (fqn, name)
    single = all(recs[f]["vals"].get(c) is None or
                 not isinstance(recs[f]["vals"][c], dict) or
                 (recs[f]["vals"][c]["one"] and
                  recs[f]["vals"][c]["blocks"][0][0] == "para" and
                  "`_" not in recs[f]["vals"][c]["blocks"][0][1])
                 for f in sel for c, _ in cols)
    if single:
        text = ro.render_table_to_string(
            dict(cols) if isinstance(fields, dict) else [c for c, _ in cols],
            fqns=fqns, link_fn=link, records=records,
            **({} if case["title"] is None else {"name_header": title}))
        rows = []
        lines = text.split("\n")
        need(lines[0] == ".. list-table::" and "   :header-rows: 1" in lines,
             "no table%s", shown(text))
        for l in lines[1:]:
            if l.startswith("   * - "):
                rows.append([l[7:]])
            elif l.startswith("     - "):
                rows[-1].append(" ".join(l[7:].split()))
            else:
                need(l.strip() in ("", ":header-rows: 1"),
                     "unexpected line %r in table%s", l, shown(text))
        need(rows[0] == ["Name" if case["title"] is None else title] +
             [lab for _, lab in cols], "header is %s%s", rows[0], shown(text))
        want = []
        for f in sel:
            row = [link(f, recs[f]["name"]) if link else recs[f]["name"]]
            for c, _ in cols:
                v = recs[f]["vals"].get(c)
                if isinstance(v, dict):
                    v = v["blocks"][0][1]
                row.append(" ".join((v or "").split()))
            want.append(row)
        if fqns is None:
            rows[1:] = sorted(rows[1:])
            want = sorted(want)
        need(rows[1:] == want, "rows are\n%s, expected\n%s%s", rows[1:], want,
             shown(text))

    # single values
    for f in recs:
        for c in list(FIELDS) + ["nope"]:
            v = recs[f]["vals"].get(c) if f in chosen else None
            got = ro.field_value_for(f, c, records)
            if v is None or v == "":
                need(got is None, "%s.%s is %r, expected None%s", f, c, got,
                     ctx())
            elif isinstance(v, dict):
                try:
                    bl = read_body(got.split("\n"))
                except Bad as e:
                    need(False, "%s.%s is malformed: %s\n%s%s", f, c, e, got,
                         ctx())
                need(bl == merge(v["blocks"]), "%s.%s has the content\n%s, "
                     "expected\n%s\n%s%s", f, c, bl, merge(v["blocks"]), got,
                     ctx())
            elif c != "short_text":
                need(got == v, "%s.%s is %r, expected %r%s", f, c, got, v,
                     ctx())
    rich = [f for f in chosen if any(isinstance(v, dict) and
                                     (len(v["blocks"]) > 1 or "upstream" in
                                      str(v["blocks"]))
                                     for v in recs[f]["vals"].values())]
    return (len(chosen) >= 3 and bool(rich) and
            any(recs[f]["path"] for f in chosen),
            "%s%s" % (case["mode"], " cli" if case["cli"] else ""))
