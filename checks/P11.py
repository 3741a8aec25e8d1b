"""P11: null and runtime errors - differential against the reference
evaluator on objects full of optional components."""
from vlib import expr
from vlib.exprcheck import make, decide, C, nontrivial

ID = "P11"
RULE = ("the checks have at least 8 tokens, and the object holds a null or"
        " an evaluation error is expected")
QUICK = 30000
THOROUGH = 600000


def gen(R):
    w = expr.EnvWorld(R, n_obj=R.int(1, 3), opt_pct=65, second=15,
                      wide=R.bool(40))
    g = expr.Gen(R, w, null_pct=R.choice([20, 45, 80]))
    checks = []
    for i in range(R.int(1, 4)):
        if R.bool(50):
            toks = g.directed("Boolean", R.int(0, 2))
            if R.bool(20):
                toks = ["not", "("] + toks + [")"]
        else:
            toks = g.at(0, "Boolean", R.int(1, 3))
        checks.append(C(toks, i))
    case = make(w, checks)
    case["nulls"] = sum(1 for o in w.mains for v in expr.fields(o).values()
                        if v is None)
    return case


def check(case):
    _, tag = decide(case)
    return nontrivial(case, 8) and (case["nulls"] > 0 or
                                    case.get("errors", 0) > 0), tag
