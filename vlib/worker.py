"""A persistent process with a hash seed of its own.  Each request is run
in a forked child, after the programs which the request wants to have been
processed before in the same process."""
import contextlib
import io
import json
import os
import re
import select
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def dump(res):
    rv = {"text": res.text, "errors": res.mh.errors,
          "warnings": res.mh.warnings, "ok": res.stab is not None}
    if res.stab is not None:
        rv["objects"] = [
            [o.fully_qualified_name(), o.n_typ.fully_qualified_name(),
             repr(list(o.to_python_dict().items())),
             [s.name for s in o.section] if o.section else []]
            for o in res.stab.iter_record_objects()]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            res.stab.dump()
        rv["dump"] = re.sub(r"object at 0x[0-9a-f]+", "object",
                            out.getvalue())
    return rv


def serve():
    from vlib import api, core      # pylint: disable=import-outside-toplevel
    api.scratch()

    def run(p):
        kw = dict(p)
        return api.process(kw.pop("files"), clean=True, **kw)

    def job(req):
        for p in req["before"]:
            run(p)
        return dump(run(req["main"]))

    for line in sys.stdin:
        req = json.loads(line)
        try:
            rv = ["ok", core.forked(lambda: job(req), req["seconds"])]
        except core.Reject:
            rv = ["reject", None]
        except core.Violation as v:
            rv = ["violation", str(v)]
        except Exception as exc:    # pylint: disable=broad-except
            rv = ["exception", repr(exc)]
        sys.stdout.write(json.dumps(rv) + "\n")
        sys.stdout.flush()


class Worker:
    def __init__(self, hashseed):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(hashseed)
        env["PYTHONPATH"] = HERE
        self.owner = os.getpid()
        self.p = subprocess.Popen(
            [sys.executable, "-B", "-c",
             "from vlib import worker; worker.serve()"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            env=env, cwd=HERE)

    def send(self, req):
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()

    def receive(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)


_pool = {}


def pool(seeds):
    """the workers of this process"""
    for s in seeds:
        w = _pool.get(s)
        if w is None or w.owner != os.getpid() or w.p.poll() is not None:
            _pool[s] = Worker(s)
    return [_pool[s] for s in seeds]
