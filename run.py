#!/usr/bin/env python3
"""Run one property check: run.py <ID> [--tier quick|thorough] [--replay F]"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def reexec():
    """Run with the interpreter of the repository and a clean environment."""
    env = dict(os.environ)
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    if sys.executable != PY or any(env.get(k) != v for k, v in want.items()):
        env.update(want)
        env.pop("PYTHONPATH", None)
        env.pop("TRLC_VERSION", None)
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)


def load(pid):
    sys.path.insert(0, HERE)
    return importlib.import_module("checks." + pid)


def known(pid):
    rv = []
    with open(os.path.join(HERE, "known_findings.txt"),
              encoding="utf-8") as fd:
        for line in fd:
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rv.append(line)
    return rv


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--setup", action="store_true",
                    help="check that everything needed is there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--shard", type=int)
    ap.add_argument("--nshards", type=int, default=8)
    ap.add_argument("--n", type=int)
    ap.add_argument("--out")
    ap.add_argument("--dump", type=int, help="print some generated cases")
    options = ap.parse_args()
    if options.tier not in ("quick", "thorough"):
        options.tier = "quick"

    reexec()
    if options.setup:
        sys.path.insert(0, HERE)
        from vlib import api
        res = api.process({"a.rsl": "package A type T { x Integer }",
                           "b.trlc": "package A T obj { x = 1 }"})
        print("trlc imported from %s: %s" % (api.REPO, res.stab is not None))
        return 0
    mod = load(options.pid)
    from vlib import core

    if options.replay:
        with open(options.replay, encoding="utf-8") as fd:
            case = json.load(fd)
        if isinstance(case, dict) and "case" in case and "message" in case:
            case = case["case"]
        try:
            res = core.guarded(mod, case)
        except core.Violation as v:
            print(v)
            print("VIOLATION property=%s replay=%s" %
                  (mod.ID, options.replay))
            return 1
        print("holds on this case: %s" % (res,))
        return 0

    if options.dump:
        import random
        rng = random.Random(int(options.seed))
        for _ in range(options.dump):
            try:
                case = mod.gen(core.Rand(rng=random.Random(
                    rng.random())))
            except core.Reject:
                print("rejected")
                continue
            for k, v in case.items():
                if k == "files":
                    for n, t in v.items():
                        print("-----", n)
                        print(t)
                else:
                    print(k, "=", v)
            try:
                print(core.guarded(mod, json.loads(json.dumps(case))))
            except core.Violation as v:
                print("VIOLATION", v)
            print("=" * 70)
        return 0

    total = options.n or (mod.QUICK if options.tier == "quick"
                          else mod.THOROUGH)
    wall_limit = 500.0 if options.tier == "quick" else 6 * 3600.0

    if options.shard is not None:
        core.shard_main(mod, options.seed, options.shard, options.nshards,
                        total, wall_limit, options.out)
        return 0

    t0 = time.time()
    nsh = options.nshards
    tmp = tempfile.mkdtemp(prefix="trlcpbt.run.")
    procs = {}
    res = {}
    bad = None
    try:
        for i in range(nsh):
            out = os.path.join(tmp, "s%u.json" % i)
            with open(os.path.join(tmp, "s%u.log" % i), "w",
                      encoding="utf-8") as log:
                procs[i] = subprocess.Popen(
                    [sys.executable, os.path.abspath(__file__), options.pid,
                     "--tier", options.tier, "--seed", options.seed,
                     "--shard", str(i), "--nshards", str(nsh),
                     "--n", str(total), "--out", out],
                    stdout=log, stderr=log, cwd=tmp)
        while procs:
            for i in list(procs):
                rc = procs[i].poll()
                if rc is None:
                    continue
                del procs[i]
                out = os.path.join(tmp, "s%u.json" % i)
                if rc != 0 or not os.path.isfile(out):
                    with open(os.path.join(tmp, "s%u.log" % i),
                              encoding="utf-8", errors="replace") as fd:
                        bad = "shard %u exited with %s\n%s" % (
                            i, rc, fd.read()[-6000:])
                    continue
                with open(out, encoding="utf-8") as fd:
                    res[i] = json.load(fd)
            if any(r["fail"] for r in res.values()):
                break
            time.sleep(0.05)
    finally:
        for p in procs.values():
            p.terminate()
        for p in procs.values():
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                p.kill()
        shutil.rmtree(tmp, ignore_errors=True)

    fails = sorted((r["fail"] for r in res.values() if r["fail"]),
                   key=lambda f: f[0])
    evals = sum(r["evals"] for r in res.values())
    nontriv = set()
    tags = {}
    samples = []
    for r in res.values():
        nontriv |= set(r["nontrivial"])
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
    for k in range(6):
        for r in res.values():
            if k < len(r["samples"]) and len(samples) < 12:
                samples.append(r["samples"][k])

    def clip(s):
        t = json.dumps(s)
        return s if len(t) < 4000 else t[:4000] + "..."

    ev = {"property": mod.ID, "tier": options.tier,
          "seed": int(options.seed), "level": "exploration",
          "coverage": {
              "evaluations": evals,
              "distinct_nontrivial": len(nontriv),
              "rule": mod.RULE,
              "samples": [clip(s) for s in samples],
              "outcome_counts": dict(sorted(tags.items())),
              "draws_rejected": sum(r["rejected"] for r in res.values())},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2)}
    rv = 0
    if fails:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays",
                            "%s-%s.json" % (mod.ID, core.digest(fails[0][1])))
        with open(path, "w", encoding="utf-8") as fd:
            json.dump({"case": fails[0][1], "message": fails[0][2]}, fd,
                      indent=1)
        print(fails[0][2])
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        ev["violations"] = [{"replay": path, "message": fails[0][2][:2000]}]
        rv = 1
    elif bad:
        print("harness failure, no verdict: %s" % bad, file=sys.stderr)
        return 2
    elif evals == 0:
        print("no cases were evaluated, no verdict", file=sys.stderr)
        return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", mod.ID + ".json"), "w",
              encoding="utf-8") as fd:
        json.dump(ev, fd, indent=1)
    for line in known(mod.ID):
        print(line)
    print("%s: %u cases, %u distinct non-trivial, %.1f s, %s" %
          (mod.ID, evals, len(nontriv), time.time() - t0,
           ", ".join("%s=%s" % kv for kv in sorted(tags.items()))))
    return rv


if __name__ == "__main__":
    sys.exit(main())
