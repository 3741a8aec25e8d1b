"""P07: rules about record objects."""
from vlib import edits, prog, api
from vlib.api import need

ID = "P07"
RULE = ("one rule about record objects or values is violated in a program"
        " with at least two types, or a program without violations with at"
        " least four types")
QUICK = 24000
THOROUGH = 800000


def gen(R):
    w = prog.build(R, max_objs=5)
    nt = sum(len(p.types) for p in w.pkgs)
    if R.bool(15):
        files = prog.render(w, fancy=R.bool(50))
        return {"files": files, "what": None, "big": nt >= 4}
    case = edits.make(R, w, "object")
    case["big"] = nt >= 2
    return case


def check(case):
    if case["what"] is None:
        res = api.process(case["files"])
        need(res.ok, "valid program rejected: %s\n%s", res.text,
             api.show(case["files"]))
        return case["big"], "accepted"
    edits.decide(case)
    return case["big"], edits.tag(case["what"])
