"""P18: files from include directories are used exactly when needed."""
import os
import shutil

from vlib import api, prog, values
from vlib.api import need
from vlib.core import Reject
from checks import P02, P15
from checks.P17 import PRE, closure
from trlc.errors import Message_Handler
from trlc.trlc import Source_Manager
import io
import re

ID = "P18"
RULE = ("at least 4 files, at least one of them given, one included and used,"
        " and one included and not used")
QUICK = 16000
THOROUGH = 500000

JUNK = ["{ } }", "type", "12 34 \"unterminated", "checks Foo {", "'''", "$",
        "import Nope", "type Alpha {}\ntype Alpha {}", "Nope foo {}"]


def refs(v):
    """names of the packages referred to by a value"""
    if v.kind == "ref":
        return {v.v.pkg.name}
    if v.kind == "arr":
        return set().union(*[refs(x) for x in v.v]) if v.v else set()
    if v.kind == "tup":
        return set().union(*[refs(x) for x in v.v.values() if x is not None])
    return set()


def gen(R):
    w = prog.build(R, max_objs=5, max_pkgs=5)
    if R.bool(50):
        P02.add_checks(R, w, 3)
    fancy = R.bool(40)
    files = {}
    for p in w.pkgs:
        if not p.rsl:
            continue
        wr = prog.Writer(R, p, fancy)
        for t in p.types:
            wr.type_decl(t)
            for blk in w.opts.extra.get("blocks", {}).get(t, []):
                blk(wr)
        files[p.name.lower() + ".rsl"] = wr.text(imports=p.imports)
    where = {}
    for p in w.pkgs:
        mine = R.shuffle([o for o in w.objs if o.pkg is p])
        for i, part in enumerate(prog.split(R, mine, R.int(1, 2))):
            wr = prog.Writer(R, p, fancy)
            for o in part:
                wr.obj(o)
            name = "%s_%u.trlc" % (p.name.lower(), i)
            files[name] = wr.text()
            for o in part:
                where[o.fq()] = name
    # values frozen in a type and used by objects of other packages
    frozen = []
    for o in w.objs:
        for t in o.typ.chain():
            for v in t.freezes.values():
                for tgt in refs(v):
                    frozen.append([o.fq(), tgt])
    names = sorted(files)
    given = R.sample(names, R.int(1, min(3, len(names))))
    where_to = {n: R.choice(["", "d1/", "d1/x/", "d2/"]) for n in names}
    return {"files": {where_to[n] + n: t for n, t in files.items()},
            "given": [where_to[n] + n for n in given],
            "where": {fq: where_to[n] + n for fq, n in where.items()},
            "expect": w.expected(), "frozen": frozen,
            # how paths are written (relative, absolute)
            "spell": [R.weighted((5, ""), (2, "./"), (2, "/"))
                      for _ in range(2)],
            "junk": R.choice(JUNK + [None] * 6), "lint": R.bool(60),
            "incs": R.choice([["."], ["d1", "d2", "."], ["d1", "d2", "."],
                              ["d2", "d1"], ["d1/x", "d1", "."]])}


def spelled(how, name):
    return os.path.abspath(name) if how == "/" else how + name


def run(given, incs, lint, spell):
    out = io.StringIO()
    mh = Message_Handler(brief=True, out=out)
    sm = Source_Manager(mh, lint_mode=lint)
    for d in incs:
        if os.path.isdir(d):
            sm.register_include(spelled(spell[0], d))
    for n in given:
        sm.register_file(spelled(spell[1], n))
    stab = sm.process()
    return api.Outcome(stab, mh, out.getvalue()), sm


def check(case):
    root = os.path.join(api.scratch(), "inc")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        return decide(case)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def decide(case):
    files, given = dict(case["files"]), case["given"]
    info = {}
    for n, t in files.items():
        m = PRE.match(t)
        if m is None:
            raise Reject()      # comments in the preamble
        info[n] = (m.group(1), re.findall(r"import\s+(\w+)", m.group(2)),
                   n.rsplit(".", 1)[1], n in given)
        if re.match(r"\s*(/|import)", t[m.end():]):
            raise Reject()
    reach = {n for n in files
             if n in given or any(d == "." or n.startswith(d + "/")
                                  for d in case["incs"])}
    complete = closure(info, False) <= reach
    info = {n: i for n, i in info.items() if n in reach}
    used = closure(info, False)
    unused = sorted(reach - used)
    have = {(i[0], i[2]) for i in info.values()}
    missing = any((p, "rsl") not in have and
                  (n.endswith(".rsl") or (p, "trlc") not in have)
                  for n in reach for p in info[n][1])
    if case["junk"]:
        for n in unused:
            # the preambles of all files (and the token after it) are read
            files[n] = files[n].rstrip("\n") + "\nx " + case["junk"] + "\n"

    for n, t in files.items():
        if os.path.dirname(n):
            os.makedirs(os.path.dirname(n), exist_ok=True)
        with open(n, "w", encoding="utf-8", newline="") as fd:
            fd.write(t)
    a, sm = run(given, case["incs"], case["lint"], case["spell"])
    known = {os.path.relpath(os.path.abspath(n)): p
             for n, p in sm.all_files.items()}
    need(len(known) == len(sm.all_files), "files known twice: %s",
         sorted(sm.all_files))

    def ctx():
        return "\ngiven: %s, included: %s, not needed: %s\n%s\n%s" % (
            given, case["incs"], unused, a.text, api.show(files))
    if missing:
        # some unneeded file imports a package which does not exist
        return False, "missing package"
    for n in reach:
        p = known.get(n)
        need(p is not None, "file %s is not known%s", n, ctx())
        need(p.primary == (n in given), "status of %s%s", n, ctx())
        need(bool(p.primary or p.secondary) == (n in used),
             "file %s should %sbe used%s", n,
             "" if n in used else "not ", ctx())
    # the same files, all of them given
    only = {n: t for n, t in files.items() if n in used}
    b, _ = run(sorted(only), [], case["lint"], ["", ""])

    def msgs(r):
        # base names are unique; directories are shown relative to the
        # common root of all files
        return sorted(re.sub(r"[\w./]*/(\w+\.(rsl|trlc))", r"\1", m.raw)
                      for m in r.msgs)

    need(msgs(a) == msgs(b), "given all at once, the messages are\n%s%s",
         b.text, ctx())
    need((a.stab is None) == (b.stab is None),
         "given all at once, the result is %s%s", b.stab, ctx())
    tag = "messages" if a.msgs else "clean"
    if not complete:
        return False, "incomplete"
    if a.stab is not None:
        da, db = P15.data(a.stab), P15.data(b.stab)
        need(values.same(da, db), "given all at once, the data is\n%s\n"
             "instead of\n%s%s", db, da, ctx())
        want = {fq: case["expect"][fq] for fq, n in case["where"].items()
                if n in used}
        need(set(da) == set(want), "objects %s expected, found %s%s",
             sorted(want), sorted(da), ctx())
        for fq, e in want.items():
            need(values.same(da[fq]["vals"], e["vals"]),
                 "%s is %s, expected %s%s", fq, da[fq]["vals"], e["vals"],
                 ctx())
    elif [m for m in a.errors() if m.kind == "error" and
          not m.msg.startswith("unknown symbol")]:
        tag = "errors"
    elif [m for m in a.errors() if m.kind == "error"]:
        # the only acceptable cause (a known finding): a frozen value
        # refers to an object in requirement files that are not needed
        loaded = {i[0] for n, i in info.items()
                  if n in used and n.endswith(".trlc")}
        why = [f for f in case["frozen"] if f[1] not in loaded and
                 case["where"][f[0]] in used]
        need(why, "objects which are needed are missing%s", ctx())
        tag = "frozen"
    return (len(reach) >= 4 and bool(unused) and len(used) > len(given),
            "%s%s" % (tag, " junk" if case["junk"] and unused else ""))
