"""P10: strings, arrays, quantifiers, tuples, enums, references - differential against the reference
evaluator, with expressions pinned to their exact value."""
from vlib import expr
from vlib.exprcheck import make, decide, C, nontrivial

ID = "P10"
RULE = ("the checks have at least 8 tokens and are evaluated on at least one"
        " object (verdicts of all objects compared)")
QUICK = 30000
THOROUGH = 600000
ASSUMPTIONS = ["regular expressions from a fixed set"]
KINDS = ["str", "str", "mk", "enum", "tup", "rec", "uni", "arr", "arr", "int"]


def gen(R):
    w = expr.EnvWorld(R, n_obj=R.int(1, 2), opt_pct=25, kinds=KINDS,
                      second=20, wide=R.bool(60))
    g = expr.Gen(R, w, null_pct=4)
    checks = []
    for i in range(R.int(1, 5)):
        k = R.int(0, 2)
        if k == 0:
            toks = g.at(0, "Boolean", R.int(1, 4))
        else:
            toks = g.pinned(R.choice(["String", "String", "Integer",
                                      "Boolean"]), R.int(1, 3))
        checks.append(C(toks, i))
    return make(w, checks)


def check(case):
    _, tag = decide(case)
    return nontrivial(case, 8), tag
