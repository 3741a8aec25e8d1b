"""P09: arithmetic, comparison, logic - differential against the reference
evaluator, with expressions pinned to their exact value."""
from vlib import expr
from vlib.exprcheck import make, decide, C, nontrivial

ID = "P09"
RULE = ("the checks have at least 8 tokens and are evaluated on at least one"
        " object (verdicts of all objects compared)")
QUICK = 30000
THOROUGH = 600000
ASSUMPTIONS = ["exponents up to 64 and values up to 3000 bits"]
KINDS = ["int", "int", "int", "dec", "dec", "bool", "bool", "arr"]


def gen(R):
    w = expr.EnvWorld(R, n_obj=R.int(1, 2), opt_pct=10, kinds=KINDS,
                      big=R.choice([0, 0, 10, 40]))
    g = expr.Gen(R, w, null_pct=2)
    checks = []
    for i in range(R.int(1, 5)):
        k = R.int(0, 3)
        if k == 0:
            toks = g.at(0, "Boolean", R.int(1, 4))
        else:
            toks = g.pinned(R.choice(["Integer", "Decimal", "Integer",
                                      "Decimal", "Boolean"]), R.int(1, 3))
        checks.append(C(toks, i))
    return make(w, checks)


def check(case):
    _, tag = decide(case)
    return nontrivial(case, 8), tag
