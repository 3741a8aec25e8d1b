"""P17: the command line tool does what its options say."""
import contextlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
from fractions import Fraction

from vlib import api, reflex
from vlib.api import need
from vlib.core import Reject
from checks import P02, P15
from trlc import trlc as cli
from trlc.errors import Kind, Message_Handler
from trlc.trlc import Source_Manager
from trlc.version import TRLC_VERSION

ID = "P17"
RULE = ("at least 3 source files and at least 2 options, or an invocation"
        " that must be refused")
QUICK = 20000
THOROUGH = 400000

FLAGS = ["--no-lint", "--skip-trlc-files", "--brief", "--no-detailed-info",
         "--no-user-warnings", "--no-error-recovery", "--show-file-list",
         "--error-on-warnings", "--debug-api-dump", "--include-bazel-dirs"]
TOPS = ["", "", "src/", "lib/", "src/deep/", "bazel-out/", "src/bazel-x/",
        "bazel/", "my-bazel-dir/"]


def gen(R):
    for _ in range(4):
        case = P15.gen_part(R)
        files, _ = P15.compose(case, case["layouts"][0])
        if len(files) >= 2:
            break
    if R.bool(25):
        name = R.choice(sorted(files))
        files[name] = P02.mutate_tokens(
            R, files[name], files[R.choice(sorted(files))])
    top = {}
    tree = {}
    for i, (n, t) in enumerate(sorted(files.items())):
        # declarations and requirements of a package often live apart
        k = n[-4:] + n.split("/")[0] if R.bool(70) else i
        if k not in top:
            top[k] = R.choice(TOPS)
        if "\r" not in t and t.isprintable() or \
           all(c.isprintable() or c in "\n\t" for c in t):
            tree[top[k] + n] = t
    if any(P02.dangerous(t) for t in tree.values()):
        raise Reject()
    if R.bool(20):
        tree[R.choice(TOPS) + R.choice(["readme.txt", "a.rsl.bak", "x.TRLC",
                                        "rsl", "b.trlc~"])] = "hello"
    if not tree:
        raise Reject()
    dirs = sorted({os.path.dirname(n).split("/")[0] for n in tree} - {""})
    flags = R.subset(FLAGS, 30)
    args = list(flags)
    inc = []
    if dirs and R.bool(40):
        inc = R.sample(dirs, R.int(1, min(2, len(dirs))))
    for d in inc:
        args += ["-I", d + R.choice(["", "", "/"])]
    items = []
    if not R.bool(25):
        pool = [d for d in dirs if d not in inc] + sorted(tree)
        for x in R.sample(pool, R.int(1, min(4, len(pool)))):
            if not R.bool(8) and any(x.startswith(y + "/") or y == x or
                                     y.startswith(x + "/") for y in items):
                continue
            items.append(x)
    bad = None
    if R.bool(8):
        bad = R.choice(["item", "include", "log", "option", "ext", "twice",
                        "version"])
    log = None
    if R.bool(20):
        log = ["out.log"]
        if R.bool(60):
            log.append(R.choice(["./", "src/", "s", "lib", "/abs/", ""]))
    if bad == "item":
        items = items[:1] + [R.choice(["nope", "nope.rsl", "src/nope"])]
    elif bad == "include":
        args += ["-I", R.choice(["nope", sorted(tree)[0]])]
    elif bad == "log":
        log = ["out.log", "a", "b"]
    elif bad == "option":
        args += [R.choice(["--verif", "--no-lin", "-Q", "--lint"])]
    elif bad == "ext":
        tree["readme.md"] = "hello"
        items = items[:1] + ["readme.md"]
    elif bad == "twice":
        x = [i for i in items if i in tree] or \
            [n for n in tree if reflex_ext(n)]
        if not x:
            raise Reject()
        items = items + [x[0]] + ([x[0]] if x[0] not in items else [])
    elif bad == "version":
        args += ["--version"]
    args = R.shuffle(args) if not inc and bad != "include" else args
    if log:
        args = ["--log"] + log + args
        if not args[len(log) + 1:]:
            args.append("--brief")
    return {"tree": tree, "args": args, "items": items, "bad": bad,
            "log": log, "inc": inc, "process": R.bool(1)}


def reflex_ext(n):
    return os.path.splitext(n)[1] in (".rsl", ".trlc")


def walk(tree, top, bazel):
    """source files below a directory, as os.path.join would name them"""
    rv = []
    base = "" if top == "." else top.rstrip("/") + "/"
    for n in tree:
        if not n.startswith(base) or not reflex_ext(n):
            continue
        parts = n[len(base):].split("/")
        if not bazel and any(p.startswith("bazel-") for p in parts[:-1]):
            continue
        rv.append(os.path.join(top, n[len(base):]))
    return sorted(rv)


def run_cli(case, root):
    argv = case["args"] + case["items"]
    if case["process"]:
        env = dict(os.environ, PYTHONPATH=api.REPO,
                   PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
        p = subprocess.run([sys.executable, "-m", "trlc"] + argv, cwd=root,
                           env=env, capture_output=True, timeout=60,
                           check=False)
        return (p.returncode, p.stdout.decode("utf-8"),
                p.stderr.decode("utf-8"))
    out, err = io.StringIO(), io.StringIO()
    save = sys.argv
    sys.argv = ["trlc"] + argv
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rv = cli.main()
            except SystemExit as e:
                rv = e.code
    finally:
        sys.argv = save
    return rv or 0, out.getvalue(), err.getvalue()


def closure(parsers, skip):
    """which files are used: packages needed by the given files"""
    need_ = set()
    todo = []
    for n, (pkg, imports, kind, primary) in parsers.items():
        if primary:
            todo.append((pkg, kind))
    while todo:
        x = todo.pop()
        if x in need_:
            continue
        need_.add(x)
        if x[1] == "trlc":
            todo.append((x[0], "rsl"))
        for n, (pkg, imports, kind, _) in parsers.items():
            if (pkg, kind) == x:
                todo += [(i, kind) for i in imports]
    return {n for n, (pkg, _, kind, _) in parsers.items()
            if (pkg, kind) in need_}


PRE = re.compile(r"^\s*package\s+(\w+)((?:\s+import\s+\w+)*)")


def canon(text, brief):
    """the order of messages about unused imports is not specified"""
    blk = re.compile(r"(?m)^%s.*unused import \w+ \[unused_imports\]\n"
                     r"(?: *\| .*\n)*" % ("" if brief else r"(?:.*\n)"))
    return blk.sub("", text) + "".join(sorted(blk.findall(text)))


def plural(n, what, of=None):
    total = n if of is None else of
    rv = "%u" % n
    if n < total:
        rv += " (of %u)" % total
    return rv + " " + what + ("" if total == 1 else "s")


def check(case):
    root = os.path.join(api.scratch(), "cli")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        for n, t in case["tree"].items():
            if os.path.dirname(n):
                os.makedirs(os.path.dirname(n), exist_ok=True)
            with open(n, "w", encoding="utf-8") as fd:
                fd.write(t)
        return decide(case, root)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def decide(case, root):
    tree, args = case["tree"], case["args"]
    rv, out, err = run_cli(case, root)

    def ctx():
        return "\ntrlc %s\nexit status %s\n%s%s\n%s" % (
            " ".join(args + case["items"]), rv, out, err, api.show(tree))
    nontrivial = sum(map(reflex_ext, tree)) >= 3 and len(args) >= 2
    need("Traceback" not in err, "internal failure%s", ctx())
    if case["bad"] in ("item", "include", "log", "option"):
        need(rv == 2 and not out and err.startswith("usage:"),
             "expected a usage error%s", ctx())
        return True, "usage"
    if case["bad"] == "version":
        need(rv == 0 and out == TRLC_VERSION + "\n", "version%s", ctx())
        return True, "version"

    def has(x):
        return x in args
    bazel = has("--include-bazel-dirs")
    skip = has("--skip-trlc-files")

    # what is given
    names = []
    refused = None
    for it in case["items"] or ["."]:
        isdir = it == "." or it not in tree
        if isdir and it not in (".",) and not os.path.isdir(it):
            raise Reject()
        for n in (walk(tree, it, bazel) if isdir else [it]):
            if n in names:
                if not (skip and n.endswith(".trlc")):
                    refused = n
            elif not reflex_ext(n):
                refused = n
            else:
                names.append(n)
    if refused:
        text = out
        if case["log"]:
            with open(case["log"][0], encoding="utf-8") as fd:
                text = fd.read()
        need(rv == 1, "exit status for %s%s", refused, ctx())
        need("error: is " in text and "Processed" not in text,
             "expected an error about %s%s", refused, ctx())
        return True, "refused"
    have = {os.path.normpath(n) for n in names}
    extra = {}
    for d in [a for p, a in zip(args, args[1:]) if p == "-I"]:
        for n in walk(tree, d, bazel):
            if os.path.normpath(n) not in have:
                extra[os.path.normpath(n)] = n

    # the same through the API
    exp = io.StringIO()
    prefix = case["log"][1] if case["log"] and len(case["log"]) > 1 else None
    mh = Message_Handler(brief=has("--brief"), out=exp,
                         detailed_info=not has("--no-detailed-info"),
                         strip_prefix=None if has("--brief") else prefix)
    if has("--no-user-warnings"):
        mh.suppress(Kind.USER_WARNING)
    sm = Source_Manager(mh, lint_mode=not has("--no-lint"),
                        parse_trlc=not skip,
                        error_recovery=not has("--no-error-recovery"))
    for n in names:
        sm.register_file(n)
    for n in sorted(extra.values()):
        sm.register_file(n, primary=False)
    stab = sm.process()
    want = exp.getvalue()
    if prefix and has("--brief"):
        want = "\n".join(l[len(prefix):] if l.startswith(prefix) else l
                         for l in want.split("\n"))

    # dump, summary, list of files
    ok = stab is not None
    if ok and has("--debug-api-dump"):
        dump = {}
        objs = list(stab.iter_record_objects())
        for o in objs:
            d = o.to_python_dict()
            dump[o.name] = {k: float(v) if isinstance(v, Fraction) else v
                            for k, v in d.items()}
        want += json.dumps(dump, indent=2, sort_keys=True) + "\n"
    info = {}
    clean = True
    for n, primary in [(n, True) for n in names] + \
            [(n, False) for n in extra.values()]:
        if skip and n.endswith(".trlc"):
            continue
        m = PRE.match(tree[os.path.normpath(n)])
        if m is None:
            clean = False
            continue
        info[n] = (m.group(1), re.findall(r"import\s+(\w+)", m.group(2)),
                   n.rsplit(".", 1)[1], primary)
    clean = clean and ok
    used = closure(info, skip)
    nrsl = [n for n in info if n.endswith(".rsl")]
    ntrlc = [n for n in info if n.endswith(".trlc")]
    tail = "Processed %s" % plural(len([n for n in nrsl if n in used]),
                                   "model", len(nrsl))
    if not skip:
        tail += " and %s" % plural(len([n for n in ntrlc if n in used]),
                                   "requirement file", len(ntrlc))
    tail += " and found "
    found = []
    if mh.warnings:
        found.append(plural(mh.warnings, "warning"))
    if mh.errors:
        found.append(plural(mh.errors, "error"))
    tail += " and ".join(found) or "no issues"
    if mh.suppressed:
        tail += " with %u suppressed messages" % mh.suppressed
    tail += "\n"
    if ok and has("--show-file-list"):
        for what, lst in (("Model", nrsl), ("Requirements", ntrlc)):
            for n in sorted(lst):
                tail += "> %s %s %s (Package %s)\n" % (
                    "[Primary] " if info[n][3] else
                    "[Included]" if n in used else "[Excluded]", what, n,
                    info[n][0])
    if clean:
        want += tail
    if case["log"]:
        need(out == "", "output in spite of --log%s", ctx())
        with open(case["log"][0], encoding="utf-8") as fd:
            out = fd.read()
        need(not any(n == case["log"][0] for n in tree), "harness")
    out = out.replace(" supressed ", " suppressed ")
    out = canon(out, has("--brief"))
    want = canon(want, has("--brief"))
    if clean:
        need(out == want, "expected this output:\n%s%s", want, ctx())
    else:
        need(out.startswith(want), "expected this output:\n%s%s", want, ctx())
        found = " and ".join(found) or "no issues"
        need((" and found %s" % found) in out[len(want):],
             "summary should say: found %s%s", found, ctx())
    fail = not ok or mh.errors or (has("--error-on-warnings") and mh.warnings)
    need(rv == (1 if fail else 0), "exit status, expected %u%s",
         1 if fail else 0, ctx())
    return (nontrivial, "%s%s" % (
        "errors" if mh.errors else "warnings" if mh.warnings else "clean",
        " includes" if extra else ""))
