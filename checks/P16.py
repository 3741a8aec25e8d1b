"""P16: the same input gives the same output, in every process."""
from vlib import api, edits, prog, worker
from vlib.api import need
from vlib.core import Reject
from checks import P02, P15

ID = "P16"
RULE = ("the program is processed in 4 processes with different hash seeds"
        " and histories and produces data or messages")
QUICK = 6000
THOROUGH = 300000
SEEDS = (1, 77, 4242, 31337)


NAMES = ["Alpha", "Beta_P", "Gam", "Delta", "Eps", "Zoo"]
MISSING = ["Missing", "Nope", "Lost", "Gone", "Away_%u", "X%u", "No_%u"]


def graph(R):
    """packages which import each other in arbitrary ways"""
    names = R.sample(NAMES, R.int(2, 6))
    files = {}
    for n in names:
        imps = [i.replace("%u", str(R.int(1, 99))) for i in R.sample(names + MISSING, R.int(0, 5))]
        body = "".join("import %s\n" % i for i in imps)
        users = [i for i in imps if i in names]
        t = "type T_%s%s {\n  x optional Integer\n}\n" % (
            n, " extends %s.T_%s" % ((R.choice(users),) * 2)
            if users and R.bool(60) else "")
        files[n.lower() + ".rsl"] = "package %s\n%s\n%s" % (
            n, body, "" if R.bool(10) else t)
        if R.bool(40):
            i2 = R.sample(names, R.int(0, 3))
            files[n.lower() + ".trlc"] = "package %s\n%s\n%s o_%s {\n}\n" % (
                n, "".join("import %s\n" % i for i in i2),
                R.choice(["T_%s" % n] + ["%s.T_%s" % (i, i) for i in i2]), n)
    return files


def program(R):
    k = R.weighted((4, "base"), (3, "edit"), (2, "part"), (2, "graph"))
    verify = False
    if k == "graph":
        return {"files": graph(R), "lint": R.bool(70), "verify": False,
                "recovery": not R.bool(15), "brief": R.bool(30),
                "detailed": True}
    if k == "base":
        verify = R.bool(10)
        files = P02.small_verify(R) if verify else P02.base(R)
        for _ in range(R.weighted((9, 0), (3, 1), (2, 2), (1, 5))):
            name = R.choice(sorted(files))
            files[name] = P02.mutate_tokens(
                R, files[name], files[R.choice(sorted(files))])
    elif k == "edit":
        w = prog.build(R, max_objs=4)
        try:
            files = edits.make(R, w, R.choice(["type", "object"]))["files"]
        except (KeyError, IndexError):
            raise Reject() from None
    else:
        case = P15.gen_part(R)
        files, _ = P15.compose(case, case["layouts"][0])
    if any(P02.dangerous(t) for t in files.values()):
        raise Reject()
    return {"files": files, "lint": R.bool(70), "verify": verify,
            "recovery": not R.bool(15), "brief": R.bool(40),
            "detailed": not verify}


def gen(R):
    p = program(R)
    return {"main": p, "order": R.shuffle(sorted(p["files"])),
            "before": [program(R) for _ in range(R.int(1, 2))],
            "again": R.bool(50)}


def check(case):
    ws = worker.pool(SEEDS)
    main = dict(case["main"])
    main["order"] = sorted(main["files"])
    before = [dict(p, verify=False) for p in case["before"]]
    hist = [[], before, before[::-1] + ([dict(main, verify=False)]
                                        if case["again"] else []), []]
    for w, h in zip(ws, hist):
        w.send({"before": h, "main": main, "seconds": 20})
    got = [w.receive() for w in ws]
    if any(g[0] == "reject" for g in got):
        raise Reject()

    def show():
        return "%s\n%s" % ("\n-- before:\n".join(
            api.show(p["files"]) for p in before),
            "-- program:\n" + api.show(main["files"]))
    if got[0][0] == "violation":
        raise Reject()      # P02's business; the histories play no part
    for g in got[1:]:
        need(g[0] == "ok", "%s\n%s", g[1], show())
        for k in got[0][1]:
            need(got[0][1][k] == g[1].get(k), "%s differs between two runs:"
                 "\n%s\n-- and --\n%s\n%s", k, got[0][1][k], g[1].get(k),
                 show())
    a = got[0][1]
    return (bool(a["text"] or a.get("objects")),
            "%s%s" % ("verify " if main["verify"] else "",
                      "errors" if a["errors"] else
                      "messages" if a["text"] else "clean"))
