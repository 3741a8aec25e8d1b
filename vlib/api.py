"""Drives the code under test (imported from /repo)."""
import io
import os
import re
import shutil
import sys
import tempfile

REPO = os.environ.get("VP_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from trlc import ast                              # noqa: E402
from trlc.errors import Message_Handler           # noqa: E402
from trlc.trlc import Source_Manager              # noqa: E402
from vlib.core import Violation                   # noqa: E402

_scratch = None


def scratch():
    """A private directory; removed at exit."""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix="trlcpbt.", dir=base)
        import atexit
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch


MSG = re.compile(r"^(?P<loc>.*?): trlc "
                 r"(?P<kind>lex error|error|issue|warning|check error|"
                 r"check warning|internal error|unsupported|.+?): "
                 r"(?P<msg>.*?)(?: \[(?P<cat>[a-z0-9_-]+)\])?$")


class Msg:
    __slots__ = ("file", "line", "col", "kind", "msg", "cat", "raw")

    def __init__(self, raw):
        m = MSG.match(raw)
        self.raw = raw
        if m is None:
            self.file = self.line = self.col = self.kind = self.cat = None
            self.msg = raw
            return
        parts = m.group("loc").split(":")
        self.file = parts[0]
        self.line = int(parts[1]) if len(parts) > 1 else None
        self.col = int(parts[2]) if len(parts) > 2 else None
        self.kind = m.group("kind")
        self.msg = m.group("msg")
        self.cat = m.group("cat")

    def is_error(self):
        return self.kind in ("lex error", "error", "check error")

    def key(self):
        return (self.file, self.line, self.col, self.kind, self.msg, self.cat)

    def __repr__(self):
        return self.raw


class Outcome:
    def __init__(self, stab, mh, text):
        self.stab = stab
        self.mh = mh
        self.text = text
        self.msgs = [Msg(l) for l in text.split("\n") if l]

    @property
    def ok(self):
        return self.stab is not None and self.mh.errors == 0

    def errors(self):
        return [m for m in self.msgs if m.is_error()]

    def objects(self):
        return list(self.stab.iter_record_objects())

    def values(self):
        return {o.fully_qualified_name(): o.to_python_dict()
                for o in self.objects()}


def process(files, order=None, lint=False, verify=False, recovery=True,
            trlc=True, brief=True, on_disk=False, includes=None,
            primary=None, detailed=True, clean=False, handler=None,
            manager=None):
    """files: dict name -> text.  Names are relative."""
    root = scratch()
    if clean:
        # nothing left over from other cases (they may be found as includes)
        for n in os.listdir(root):
            n = os.path.join(root, n)
            shutil.rmtree(n) if os.path.isdir(n) else os.unlink(n)
    cwd = os.getcwd()
    os.chdir(root)
    made = []
    try:
        for name, text in files.items():
            d = os.path.dirname(name)
            if d:
                os.makedirs(d, exist_ok=True)
            if on_disk:
                with open(name, "w", encoding="utf-8", newline="") as fd:
                    fd.write(text)
                made.append(name)
            elif not os.path.exists(name):
                with open(name, "w", encoding="utf-8"):
                    pass
        out = io.StringIO()
        mh = (handler or Message_Handler)(
            brief=brief, detailed_info=detailed, out=out)
        sm = (manager or Source_Manager)(
            mh, lint_mode=lint, verify_mode=verify,
            parse_trlc=trlc, error_recovery=recovery)
        reg_ok = True
        for name in (order if order is not None else files):
            if name.endswith(".trlc") and not trlc:
                continue
            reg_ok &= sm.register_file(name,
                                       None if on_disk else files[name])
        for inc in includes or []:
            sm.register_include(inc)
        stab = sm.process() if reg_ok else None
        res = Outcome(stab, mh, out.getvalue())
        res.sm = sm
        return res
    finally:
        for name in made:
            try:
                os.unlink(name)
            except OSError:
                pass
        os.chdir(cwd)


def need(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def show(files):
    return "\n".join("--- %s\n%s" % (n, t) for n, t in files.items())
