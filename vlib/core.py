"""Runner for the property checks.

Every property lives in checks/<id>.py, a module with

  gen(R) -> case      build a JSON-able case from random draws (R: Rand)
  check(case) -> res  decide the case; raise Violation if the property fails;
                      return (nontrivial: bool, tag: str)
  RULE                the rule by which a case counts as non-trivial
  QUICK, THOROUGH     total number of generated cases per tier
  FIXED (optional)    list of hand-made cases which always run first

The deciding step is always the comparison of the real code's behaviour
with an explicit oracle on a generated case.  Failures are shrunk by
minimising the sequence of random choices they were built from, and the
smallest failing case (JSON) is the replay file.
"""
import hashlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

CASE_CPU_LIMIT = 40.0      # CPU seconds per case before it counts as a hang
SHRINK_LIMIT   = 25.0      # wall seconds of shrinking


class Violation(Exception):
    pass


class Reject(Exception):
    """The generator could not build a case from these draws."""


class Hang(Violation):
    pass


class Rand:
    """Random source.  Every decision is one bounded integer, drawn from a
    seeded generator and recorded; a case is a function of that sequence
    of choices, which is what gets shrunk (choice 0 is the simplest: the
    smallest magnitude, the first alternative, the shortest list)."""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.trace = []

    def _draw(self, n):
        if self.replay is not None:
            i = len(self.trace)
            v = min(self.replay[i], n - 1) if i < len(self.replay) else 0
        else:
            v = self.rng.randrange(n)
        if len(self.trace) > 20000:
            raise Reject()
        self.trace.append(v)
        return v

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        v = self._draw(hi - lo + 1)
        if lo >= 0:
            return lo + v
        if hi <= 0:
            return hi - v
        m = min(-lo, hi)            # zig-zag around zero
        if v <= 2 * m:
            return (v + 1) // 2 if v % 2 else -(v // 2)
        return v - m if hi > m else -(v - m)

    def bool(self, pct=50):
        """true with the given percentage; shrinks to false"""
        if pct <= 0:
            return False
        if pct >= 100:
            return True
        return self._draw(100) >= 100 - pct

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, *pairs):
        """pairs of (weight, value)"""
        tot = sum(w for w, _ in pairs)
        n = self.int(0, tot - 1)
        for w, v in pairs:
            if n < w:
                return v
            n -= w
        raise AssertionError

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def subset(self, seq, pct=50):
        return [x for x in seq if self.bool(pct)]

    def list(self, lo, hi, f):
        return [f() for _ in range(self.int(lo, hi))]


def shrink(mod, choices, st):
    """Make the choice sequence of a failing case smaller while the check
    still fails; st remembers the smallest failing case seen."""
    t_end = time.time() + SHRINK_LIMIT
    seen = set()

    def fails(seq):
        key = tuple(seq)
        if key in seen:
            return None
        seen.add(key)
        R = Rand(replay=seq)
        try:
            case = json.loads(json.dumps(mod.gen(R)))
        except Reject:
            return None
        trace = list(R.trace)
        while trace and trace[-1] == 0:
            trace.pop()
        if (len(trace), trace) >= (len(best), best):
            return None
        try:
            guarded(mod, case)
        except Violation as v:
            st.record_fail(case, str(v))
            return trace
        except Reject:
            pass
        return None

    best = list(choices)
    while best and best[-1] == 0:
        best.pop()
    best.append(1 << 62)        # anything is an improvement at first
    r = fails(choices)
    if r is None:
        return
    best = r
    improved = True
    while improved and time.time() < t_end:
        improved = False
        for size_ in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - size_
            while i >= 0 and time.time() < t_end:
                r = fails(best[:i] + best[i + size_:])
                if r is None and any(best[i:i + size_]):
                    r = fails(best[:i] + [0] * size_ + best[i + size_:])
                if r is not None:
                    best = r
                    improved = True
                    i = min(i, len(best) - size_)
                else:
                    i -= max(1, size_ // 2)
        i = 0
        while i < len(best) and time.time() < t_end:
            for new in (0, best[i] // 2, best[i] - 1):
                if 0 <= new < best[i]:
                    r = fails(best[:i] + [new] + best[i + 1:])
                    if r is not None:
                        best = r
                        improved = True
                        break
            i += 1


def digest(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode("utf-8", "surrogatepass"),
        digest_size=8).hexdigest()


def size(case):
    return len(json.dumps(case))


def guarded(mod, case):
    """Run mod.check with a CPU watchdog.

    Exceptions other than Violation come either out of the code under test
    (a violation of every property: the tool died), from reading a result
    which does not have the documented shape (a violation, too), or from the
    environment (no verdict).
    """
    def on_alarm(_sig, _frm):
        raise Hang("no result after %u s of CPU time" % CASE_CPU_LIMIT)

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        return mod.check(case)
    except (Violation, Reject):
        raise
    except Exception as exc:   # pylint: disable=broad-except
        frames = [f.filename for f in traceback.extract_tb(exc.__traceback__)]
        repo = os.environ.get("VP_REPO", "/repo")
        if any(f.startswith(repo + "/") for f in frames):
            raise Violation("internal failure %s: %s\n%s" %
                            (type(exc).__name__, exc,
                             "".join(traceback.format_exception(exc)[-6:])))
        if isinstance(exc, (AttributeError, TypeError, LookupError,
                            AssertionError, ArithmeticError)):
            # What the tool delivered does not have the documented shape
            # (e.g. a reference without target), so the oracle tripped.
            raise Violation("result cannot be read: %s: %s\n%s" %
                            (type(exc).__name__, exc,
                             "".join(traceback.format_exception(exc)[-6:])))
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def forked(fn, seconds):
    """fn() in a child process, for code which may hang in a C library.

    Returns what fn returns (JSON); passes Violation and Reject on; a child
    which does not answer in time gives no verdict (Reject)."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                rv = ["ok", fn()]
            except Violation as v:
                rv = ["violation", str(v)]
            except Reject:
                rv = ["reject", None]
            except Exception as exc:   # pylint: disable=broad-except
                rv = ["exception", "".join(traceback.format_exception(exc)),
                      [f.filename for f in
                       traceback.extract_tb(exc.__traceback__)]]
            data = json.dumps(rv).encode("utf-8")
            while data:
                data = data[os.write(wr, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    t_end = time.time() + seconds
    buf = b""
    eof = False
    try:
        while not eof:
            left = t_end - time.time()
            if left <= 0:
                break
            r, _, _ = select.select([rd], [], [], left)
            if not r:
                break
            chunk = os.read(rd, 1 << 16)
            eof = not chunk
            buf += chunk
    finally:
        os.close(rd)
        if not eof:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
    if not eof:
        raise Reject()
    if os.WIFSIGNALED(status):
        raise Violation("process died with signal %u" % os.WTERMSIG(status))
    if not buf:
        raise RuntimeError("child without result")
    rv = json.loads(buf.decode("utf-8"))
    if rv[0] == "ok":
        return rv[1]
    if rv[0] == "violation":
        raise Violation(rv[1])
    if rv[0] == "reject":
        raise Reject()
    repo = os.environ.get("VP_REPO", "/repo")
    if any(f.startswith(repo + "/") for f in rv[2]):
        raise Violation("internal failure\n%s" % rv[1][-3000:])
    raise RuntimeError(rv[1])


class ShardState:
    def __init__(self):
        self.evals = 0
        self.rejected = 0
        self.nontrivial = set()
        self.tags = {}
        self.samples = []
        self.fail = None         # (size, case, message)
        self.fail_at = None

    def record(self, case, res):
        nontriv, tag = res
        self.evals += 1
        self.tags[tag] = self.tags.get(tag, 0) + 1
        if nontriv:
            d = digest(case)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                if len(self.samples) < 3 or \
                   (len(self.samples) < 6 and len(self.nontrivial) % 97 == 0):
                    self.samples.append(case)

    def record_fail(self, case, msg):
        s = size(case)
        if self.fail is None:
            self.fail_at = time.time()
        if self.fail is None or s < self.fail[0]:
            self.fail = (s, case, msg)


def run_one(mod, st, case):
    try:
        res = guarded(mod, case)
    except Violation as v:
        st.evals += 1
        st.record_fail(case, str(v))
        raise
    st.record(case, res)


def run_shard(mod, seed, shard, nshards, total, wall_limit):
    t_end = time.time() + wall_limit
    st = ShardState()

    fixed = list(getattr(mod, "FIXED", []))
    for i, case in enumerate(fixed):
        if i % nshards == shard:
            try:
                run_one(mod, st, case)
            except Violation:
                return st

    n = total // nshards
    base = "%s/%s/%s" % (mod.ID, seed, shard)
    k = 0
    while st.evals + st.rejected < 50 * n and st.evals < n and \
            time.time() < t_end:
        rng = random.Random("%s/%s" % (base, k))
        k += 1
        R = Rand(rng=rng)
        try:
            case = mod.gen(R)
            # the case must survive the replay file
            case = json.loads(json.dumps(case))
            run_one(mod, st, case)
        except Reject:
            st.rejected += 1
        except Violation:
            shrink(mod, list(R.trace), st)
            break
    return st


def shard_main(mod, seed, shard, nshards, total, wall_limit, out):
    st = run_shard(mod, seed, shard, nshards, total, wall_limit)
    if st.fail is not None:
        # confirm on a fresh evaluation, so that only reproducible
        # failures are ever reported
        ok = 0
        for _ in range(2):
            try:
                guarded(mod, st.fail[1])
            except Violation:
                ok += 1
        if ok == 0:
            sys.stderr.write("failure did not reproduce: %s\n%s\n" %
                             (st.fail[2], json.dumps(st.fail[1])[:3000]))
            if not getattr(mod, "FLAKY_OK", False):
                sys.exit(3)
            st.fail = None
    with open(out, "w", encoding="utf-8") as fd:
        json.dump({"evals": st.evals, "rejected": st.rejected,
                   "nontrivial": sorted(st.nontrivial), "tags": st.tags,
                   "samples": st.samples, "fail": st.fail}, fd)
