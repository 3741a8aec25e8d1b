"""Common part of the checks about expressions: run a program with checks
and compare all messages with the reference verdicts."""
from vlib import api, expr
from vlib.api import need
from vlib.core import Reject


def make(w, checks, fancy=False):
    """checks: (tokens, severity, message, details, anchor).  Computes what
    must happen.  Rejects ambiguous cases."""
    stats = {}
    verdicts = []
    bad = None
    for toks, *_ in checks:
        v = w.judge(toks, stats)
        if v[0] == "bad":
            bad = v[1]
        verdicts.append(v)
    if bad and len(checks) > 1:
        raise Reject()
    case = {"files": w.files(checks, fancy), "bad": bad,
            "exprs": [" ".join(c[0]) for c in checks]}
    if not bad:
        exp = {}
        nerr = 0
        n_true = n_false = 0
        for i, o in enumerate(w.mains):
            msgs = []
            for (toks, sev, msg, det, anchor), (_, res) in zip(checks,
                                                               verdicts):
                r = res[i]
                if r == "error":
                    msgs.append(["error", None])
                    nerr += 1
                    break
                if r is True:
                    n_true += 1
                    continue
                n_false += 1
                msgs.append([{"warning": "check warning"}.get(
                    sev, "check error"), msg])
                if sev == "fatal":
                    break
            exp[o.name + ".trlc"] = msgs
        case["expect"] = exp
        case["errors"] = nerr
        case["counts"] = [n_true, n_false, nerr]
    case["stats"] = stats
    return case


def decide(case):
    files = case["files"]
    res = api.process(files)

    def ctx():
        return "%s\nexpressions: %s\n%s" % (
            res.text, case["exprs"], api.show(files))

    if case["bad"]:
        need(res.stab is None and res.mh.errors >= 1,
             "invalid expression accepted (%s): %s", case["bad"], ctx())
        need(len(res.errors()) >= 1 and res.errors()[0].file == "main.rsl",
             "no error in the file with the invalid expression (%s): %s",
             case["bad"], ctx())
        return True, "rejected"
    got = {}
    nerr = 0
    for m in res.msgs:
        if m.kind in ("check error", "check warning"):
            got.setdefault(m.file, []).append([m.kind, m.msg])
        else:
            need(m.kind == "error", "unexpected message %s\n%s", m.raw,
                 ctx())
            nerr += 1
    for f, msgs in case["expect"].items():
        want = [m for m in msgs if m[1] is not None]
        need(got.get(f, []) == want, "%s: expected check results %s, got %s"
             "\n%s", f, want, got.get(f, []), ctx())
    need(set(got) <= set(case["expect"]), "checks reported elsewhere: %s\n%s",
         got, ctx())
    need(nerr == case["errors"], "expected %u evaluation errors, got %u\n%s",
         case["errors"], nerr, ctx())
    fails = nerr > 0 or any(m[0] == "check error"
                            for ms in case["expect"].values() for m in ms)
    need((res.stab is None) == fails and (res.mh.errors > 0) == fails,
         "symbol table returned: %s, errors %u, but expected failure: %s\n%s",
         res.stab is not None, res.mh.errors, fails, ctx())
    t, f, e = case["counts"]
    return True, "true>%s false>%s error>%s" % (min(t, 1), min(f, 1),
                                                min(e, 1))


def n_ops(case):
    return sum(len(e.split(" ")) for e in case["exprs"])


def nontrivial(case, least):
    return n_ops(case) >= least


def C(toks, i, sev=None):
    return (toks, sev, "C%u" % i, None, None)


__all__ = ["make", "decide", "expr", "C", "nontrivial"]
