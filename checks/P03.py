"""P03: record data fidelity - constructive generation with known meaning."""
from vlib import api, prog, values
from vlib.api import need

ID = "P03"
RULE = ("the program is accepted and has at least 2 record objects with at"
        " least 4 stored non-null values")
QUICK = 40000
THOROUGH = 120000


def gen(R):
    w = prog.build(R)
    fancy = R.bool(75)
    files = prog.render(w, fancy=fancy)
    return {"files": files, "expect": w.expected()}


def check(case):
    res = api.process(case["files"])
    need(res.ok, "valid program rejected: %s\n%s", res.text,
         api.show(case["files"]))
    need(not res.msgs, "unexpected messages %s", res.text)
    values.compare(res.stab, case["expect"])
    vals = [v for e in case["expect"].values() for v in e["vals"].values()
            if v is not None]
    return len(case["expect"]) >= 2 and len(vals) >= 4, "objects=%u" % min(
        len(case["expect"]), 9)
