"""P15: the result depends neither on the order in which files are given,
nor on their names, nor on how objects are spread over files."""
import os
import re
from vlib import api, prog, values
from vlib.api import need
from vlib.core import Reject
from checks import P02

ID = "P15"
RULE = ("at least 3 files, and for a repartitioned program at least 3 objects"
        " and a partition that differs from the first; for a permutation an"
        " order that differs from the first")
QUICK = 24000
THOROUGH = 600000

STEMS = ["a", "b", "m", "zz", "model", "req", "x1", "x2", "A", "_t", "data.v1",
         "name with space"]
DIRS = ["", "", "sub/", "sub/deep/", "other/", "subway/", "a/"]


def gen(R):
    return gen_perm(R) if R.bool(40) else gen_part(R)


def gen_perm(R):
    files = P02.base(R)
    for _ in range(R.weighted((4, 0), (4, 1), (2, 2))):
        name = R.choice(sorted(files))
        if R.bool(75):
            files[name] = P02.mutate_tokens(
                R, files[name], files[R.choice(sorted(files))])
        else:
            files["copy" + name[name.rfind("."):]] = files[name]
    if any(P02.dangerous(t) for t in files.values()):
        raise Reject()
    files = {(R.choice(DIRS) if R.bool(60) else "") + n: t
             for n, t in files.items()}
    return {"kind": "perm", "files": files,
            "order": R.shuffle(sorted(files)),
            "reg": R.choice(["file", "file", "include"]),
            "lint": R.bool(60), "recovery": not R.bool(20)}


def gen_part(R):
    w = prog.build(R, max_objs=5)
    if R.bool(75):
        P02.add_checks(R, w, 4)
    fancy = R.bool(60)
    rsls = []
    for p in w.pkgs:
        if p.rsl:
            wr = prog.Writer(R, p, fancy)
            for t in p.types:
                wr.type_decl(t)
                for blk in w.opts.extra.get("blocks", {}).get(t, []):
                    blk(wr)
            rsls.append([p.name, [q.name for q in p.imports],
                         prog.layout(wr.toks, R if fancy else None)])
    objs = []
    for o in w.objs:
        wr = prog.Writer(R, o.pkg, fancy)
        wr.obj(o)
        o.section = R.choice([[], [], ["A"], ["A", "B"], ["B"]])
        objs.append([o.pkg.name, sorted(p.name for p in wr.used), o.section,
                     prog.layout(wr.toks, R if fancy else None), o.fq()])
    if not objs:
        raise Reject()
    expect = w.expected()
    drop = None
    if R.bool(15):
        # dangling references
        drop = R.int(0, len(objs) - 1)
        gone = objs.pop(drop)[0]
        if gone not in {r[0] for r in rsls} | {o[0] for o in objs}:
            raise Reject()      # the package itself would be missing
    names = sorted({r[0] for r in rsls} | {o[0] for o in objs})
    layouts = [plan(R, rsls, objs, names) for _ in range(2)]
    return {"kind": "part", "rsls": rsls, "objs": objs, "layouts": layouts,
            "expect": expect if drop is None else None,
            "lint": R.bool(50)}


def plan(R, rsls, objs, names):
    """file names, the partition and order of objects, extra imports"""
    used = set()

    def fresh(ext):
        for _ in range(50):
            n = R.choice(DIRS) + R.choice(STEMS) + ext
            if n not in used:
                used.add(n)
                return n
        raise Reject()

    rv = {"rsl": [fresh(".rsl") for _ in rsls], "trlc": []}
    ids = R.shuffle(list(range(len(objs))))
    for pkg in sorted(set(o[0] for o in objs)):
        mine = [i for i in ids if objs[i][0] == pkg]
        for part in prog.split(R, mine, R.int(1, 3)):
            rv["trlc"].append([fresh(".trlc"), pkg, part,
                               R.subset([n for n in names if n != pkg], 15),
                               R.bool(50)])
    rv["order"] = R.shuffle(sorted(used))
    return rv


def compose(case, lay):
    """-> files, {(file, line): (chunk, relative line)}"""
    files = {}
    where = {}

    def put(name, lines, text, chunk):
        for i, l in enumerate(text.rstrip("\n").split("\n")):
            lines.append(l)
            where[(name, len(lines))] = (chunk, i)

    for (pkg, imports, text), name in zip(case["rsls"], lay["rsl"]):
        lines = ["package " + pkg] + ["import " + i for i in imports]
        put(name, lines, text, "rsl " + pkg)
        files[name] = "\n".join(lines) + "\n"
    for name, pkg, ids, extra, merge in lay["trlc"]:
        imports = set(extra)
        for i in ids:
            imports |= set(case["objs"][i][1])
        lines = ["package " + pkg] + ["import " + i for i in sorted(imports)]
        path = []
        for i in ids:
            _, _, sec, text, fq = case["objs"][i]
            k = 0
            if merge:
                while k < min(len(path), len(sec)) and path[k] == sec[k]:
                    k += 1
            lines += ["}"] * (len(path) - k)
            lines += ['section "%s" {' % s for s in sec[k:]]
            path = sec
            put(name, lines, text, fq)
        lines += ["}"] * len(path)
        files[name] = "\n".join(lines) + "\n"
    return files, where


REF = re.compile(r"((?:[\w.]+/)*[\w. ]+\.(?:rsl|trlc))(?::(\d+))?")


def normal(files, res, where):
    """messages with positions relative to the text of their declaration"""
    names = set(files)
    # other declarations are named relative to the common directory
    root = os.path.commonpath(["/r/" + os.path.dirname(f) for f in names])
    out = []
    for line in res.text.split("\n"):
        if not line:
            continue

        def sub(m):
            # the longest suffix which is a file name (text before it may
            # look like part of a name)
            f = m.group(1)
            for i in range(len(f)):
                n = f[i:]
                if m.start():
                    n = os.path.relpath(os.path.join(root, n), "/r")
                if n in names:
                    key = (n, int(m.group(2) or 0))
                    return f[:i] + "<%s>" % (where.get(key, "?"),)
            return m.group(0)
        out.append(REF.sub(sub, line))
    return out


def data(stab):
    rv = {}
    for o in stab.iter_record_objects():
        rv[o.fully_qualified_name()] = {
            "type": o.n_typ.fully_qualified_name(),
            "vals": {n: values.actual(v) for n, v in o.field.items()},
            "section": [s.name for s in o.section] if o.section else []}
    return rv


def check(case):
    return check_perm(case) if case["kind"] == "perm" else check_part(case)


def check_perm(case):
    files = case["files"]
    runs = []
    for order in (sorted(files), case["order"]):
        # includes all files are also given: the tool must drop them from
        # its list of optional files
        res = api.process(files, order=order, lint=case["lint"],
                          recovery=case["recovery"],
                          includes=["."] if case["reg"] == "include"
                          else None, clean=True)
        runs.append(res)
    a, b = runs
    # (unused imports are reported in the order of registration)
    need(sorted(a.text.split("\n")) == sorted(b.text.split("\n")) and
         [m.raw for m in a.msgs if m.cat != "unused_imports"] ==
         [m.raw for m in b.msgs if m.cat != "unused_imports"],
         "messages depend on the order of registration:\n"
         "%s\n--\n%s\norder %s\n%s", a.text, b.text, case["order"],
         api.show(files))
    need((a.stab is None) == (b.stab is None), "result depends on the order"
         " of registration\n%s", api.show(files))
    if a.stab is not None:
        da, db = data(a.stab), data(b.stab)
        need(list(da.items()) == list(db.items()) and
             all(values.same(da[k]["vals"], db[k]["vals"]) for k in da),
             "data depends on the order of registration:\n%s\n%s\n%s", da, db,
             api.show(files))
    return (len(files) >= 3 and sorted(files) != case["order"],
            "perm %s" % ("clean" if a.ok else "errors"))


def check_part(case):
    runs = []
    for lay in case["layouts"]:
        files, where = compose(case, lay)
        res = api.process(files, order=lay["order"], lint=case["lint"],
                          clean=True)
        runs.append((files, res, where))

    def show():
        return "\n=====\n".join("%s\n%s" % (r.text, api.show(f))
                                for f, r, _ in runs)
    na, nb = [[m for m in normal(f, r, w) if not "unused import" in m]
              for f, r, w in runs]
    if sorted(na) != sorted(nb):
        # after an error in the declarations, where parsing resumes in
        # other files is not specified
        if api.process(runs[0][0], trlc=False).mh.errors:
            need(runs[0][1].stab is None and runs[1][1].stab is None,
                 "program with errors accepted\n%s", show())
            return False, "part declaration errors"
    need(sorted(na) == sorted(nb), "messages differ: %s\n%s",
         sorted(set(na) ^ set(nb)), show())
    (_, a, _), (_, b, _) = runs
    need((a.stab is None) == (b.stab is None),
         "only one arrangement is accepted\n%s", show())
    for o in case["objs"]:
        tag = "<('%s'," % o[4]
        need([m for m in na if m.startswith(tag)] ==
             [m for m in nb if m.startswith(tag)],
             "order of the messages about %s differs\n%s", o[4], show())
    if a.stab is not None:
        da, db = data(a.stab), data(b.stab)
        need(values.same(da, db), "data differs\n%s\n%s\n%s", da, db, show())
        if case["expect"] is not None:
            for k, e in case["expect"].items():
                need(k in da and values.same(da[k]["vals"], e["vals"]) and
                     da[k]["section"] == e["section"],
                     "object %s is %s, expected %s\n%s", k, da.get(k), e,
                     show())
    la, lb = case["layouts"]
    moved = [x[2] for x in la["trlc"]] != [x[2] for x in lb["trlc"]]
    return (len(runs[0][0]) >= 3 and len(case["objs"]) >= 3 and moved,
            "part %s" % ("errors" if not a.ok else
                         "messages" if na else "clean"))
