"""P09: calls in copies of a process, in handlers, at exit, after a second import, in odd environments."""
import json
import os
import resource
import signal
import subprocess
import sys
import tempfile

import pymon
from pymon import VERSIONS, shorten

CHILD = os.path.join(pymon.HERE, "p09child.py")
PLACES = {
    "early": ["child forked before the import", "child forked before the first call", "child forked after the first call", "parent",
              "child forked later", "child forked by a thread"],
    "busy": ["child forked while threads call", "parent"],
    "pools": ["parent"],
    "handlers": ["signal handler", "finalizer", "weak reference", "between", "argument read during signals", "after a handler's exception"],
    "traced": ["profile function", "trace function", "profiled", "traced", "audited", "audit hook"],
    "ending": ["exit handler from before the import", "exit handler", "thread exit handler", "finalizer at exit", "cycle at exit", "thread that outlives the main one"],
    "again": ["first import", "imported again"],
    "imports": ["any iterable", "first calls"],
    "plain": ["main thread", "thread with a small stack", "context", "coroutine", "asyncio's threads"],
}
MODES = ["early", "plain", "ending", "handlers", "early", "plain", "pools", "ending", "again", "busy", "traced", "imports"]
BAD = ["ValueError", "OverflowError", "TypeError", "ValueError", "ValueError"]


def few_files():
    resource.setrlimit(resource.RLIMIT_NOFILE, (16, 16))


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def small_stack():
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, 1 << 20))


def closed():
    os.close(0)
    os.close(1)
    os.close(2)


def masked():
    os.umask(0o777)


# Names, variables (None: removed), interpreter options, what happens before the interpreter starts.
ENVIRONMENTS = [
    ("as usual", {}, [], None),
    ("C locale", {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, [], None),
    ("POSIX locale and UTF-8", {"LC_ALL": "POSIX", "PYTHONUTF8": "1"}, [], None),
    ("Turkish locale", {"LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "tr"}, [], None),
    ("no variables", {"LANG": None, "LC_ALL": None, "HOME": None, "TMPDIR": None, "USER": None, "PATH": None}, [], None),
    ("unusable directories", {"HOME": "/nonexistent", "TMPDIR": "/nonexistent", "XDG_CACHE_HOME": "/nonexistent"}, [], None),
    ("hash seed 0", {"PYTHONHASHSEED": "0"}, [], None),
    ("hash seed 4294967295", {"PYTHONHASHSEED": "4294967295"}, [], None),
    ("optimized", {}, ["-OO"], None),
    ("development mode", {}, ["-X", "dev"], None),
    ("warnings as errors", {}, ["-W", "error"], None),
    ("bytes warnings as errors", {}, ["-bb"], None),
    ("Rust's variables", {"RUST_BACKTRACE": "full", "RUST_LOG": "trace", "RUST_MIN_STACK": "1"}, [], None),
    ("few files", {}, [], few_files),
    ("small stack", {}, [], small_stack),
    ("no standard streams", {}, [], closed),
    ("no permissions for new files", {}, [], masked),
    ("debugging allocator", {"PYTHONMALLOC": "debug"}, [], None),
    ("system allocator", {"PYTHONMALLOC": "malloc", "MALLOC_PERTURB_": "165"}, [], None),
    ("no site packages' hooks", {}, ["-s", "-E"], None),
    ("digits limit", {"PYTHONINTMAXSTRDIGITS": "640"}, [], None),
    ("import times", {}, ["-X", "frozen_modules=off"], None),
    ("many variables", {**{k: "1" for k in ("DEBUG", "VERBOSE", "TRACE", "CI", "TESTING", "FORCE_COLOR", "NO_COLOR", "RAYON_NUM_THREADS",
                                             "SOURCE_DATE_EPOCH", "UNICODE_INTERVALS_DEBUG", "UNICODE_INTERVALS_CACHE", "PYO3_PRINT_CONFIG")},
                        **{k: "9.0.0" for k in ("UNICODE_VERSION", "UNICODE_INTERVALS_VERSION", "UNICODE_INTERVALS_DEFAULT_VERSION", "UCD_VERSION")}}, [], None),
]
# What the extension asks the C library about its surroundings is answered by surroundings.c.
ODD = ("odd surroundings", {"LD_PRELOAD": "libsurroundings.so"}, [], None)


def expected(golden, cases, what):
    kind = what[0]
    if kind == "query":
        want = cases[what[1]][-1]
        if isinstance(want, list) and (not want or isinstance(want[0], list)):
            return [len(want), sum(a * 31 + b for a, b in want) % 1000003]
        return want
    if kind == "cover":
        want = golden.cover(*what[1:])
        return [len(want), sum(a * 31 + b for a, b in want) % 1000003]
    if kind == "categories":
        return [True, *golden.order[what[1]]]
    if kind == "expand":
        want = golden.expand(what[2], what[1])
        return list(want) if isinstance(want, tuple) else "rejected"
    if kind == "version":
        v = what[1]
        return [v, f'UnicodeVersion("{v}")', VERSIONS[-1], VERSIONS.index(v), True, True]
    return BAD[what[1]]


def body(m):
    u = pymon.load()
    golden = pymon.Golden()
    cases = [c for c in pymon.cases(m.args.cases) if not (isinstance(c[-1], list) and c[-1] and not isinstance(c[-1][0], list))]
    scratch = tempfile.mkdtemp(prefix="p09-", dir=".")
    path = os.path.join(scratch, "cases")
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    root = os.path.dirname(os.path.dirname(os.path.abspath(u.__file__)))
    for i in range(m.args.amount):
        mode = MODES[(i + m.args.part) % len(MODES)]
        label, variables, options, before = m.r.choice(ENVIRONMENTS) if mode == "plain" or m.r.random() < 0.3 else ENVIRONMENTS[0]
        if mode != "plain" and (before or label == "warnings as errors"):
            label, variables, options, before = ENVIRONMENTS[0]
        seed = m.r.randrange(1 << 20)
        odd = m.r.random() < 0.3
        if odd:
            label, variables, options, before = ODD
        name = f"a process ({mode}, {label}, seed {seed})"
        out = os.path.abspath(os.path.join(scratch, f"out-{i}"))
        env = dict(os.environ)
        for k, v in variables.items():
            env.pop(k, None)
            if v is not None:
                env[k] = v
        if odd:
            env.update(LD_PRELOAD=os.path.join(m.args.spies, "libsurroundings.so"), SURROUNDINGS_SEED=str(seed), SURROUNDINGS_LOG=out + ".asked",
                       SURROUNDINGS_CANARY=os.path.join(m.args.spies, "unicode_intervals_canary.so"))
        # The package and the monitors are found without variables too.
        start = f"import sys; sys.path[:0] = [{pymon.HERE!r}, {root!r}]; sys.argv = sys.argv[1:]; import runpy; runpy.run_path({CHILD!r}, run_name='__main__')"
        command = [CHILD] if mode == "pools" or "-E" not in options else ["-c", start, CHILD]
        if mode == "pools":
            options = [o for o in options if o not in ("-E", "-s")]
        with open(out + ".stdout", "w+", errors="replace") as stdout, open(out + ".stderr", "w+", errors="replace") as stderr:
            p = subprocess.Popen([sys.executable, "-B", *options, *command, mode, str(seed), os.path.abspath(path), out],
                                 stdin=subprocess.DEVNULL, stdout=stdout, stderr=stderr, env=env, preexec_fn=before or no_core)
            hung = False
            try:
                p.wait(150)
            except subprocess.TimeoutExpired:
                # Its fault handler says where it is.
                hung = True
                p.send_signal(signal.SIGABRT)
                p.wait()
            stdout.seek(0)
            stderr.seek(0)
            p.stdout, p.stderr = stdout.read(), stderr.read()
        m.check(not hung, lambda: f"{name} did not finish in 150 s: {p.stderr[-2500:]}")
        records = []
        with open(out, errors="replace") as f:
            for line in f:
                records.append(json.loads(line))
        questions = set()
        if os.path.exists(out + ".asked"):
            with open(out + ".asked", errors="replace") as f:
                questions = {line.strip() for line in f}
            os.unlink(out + ".asked")
        for q in questions:
            m.count(f"odd answers: {q}")
        # Said with a violation, since an answer may have caused it.
        name += f", told odd things about {sorted(questions)}" if questions else ""
        places = {}
        for where, what, value in records:
            if where == "status":
                m.check(value == 0, lambda: f"{name}: {what[0]}: {value}; {p.stderr[-1500:]}")
                places[what[0]] = places.get(what[0], 0) + 1
                continue
            want = expected(golden, cases, what)
            m.check(value == want, lambda: f"{name}: {where}: got {shorten(value)} from {shorten(what)}, should be {shorten(want)}")
            places[where] = places.get(where, 0) + 1
            m.seen((mode, label, where, what))
        m.check(p.returncode >= 0, lambda: f"{name} died of signal {-p.returncode}: {p.stderr[-2000:]}")
        m.check("panicked at" not in p.stderr and "Fatal Python error" not in p.stderr, lambda: f"{name}: {p.stderr[-2500:]}")
        m.check(p.returncode == 0, lambda: f"{name} ended with status {p.returncode}: {p.stderr[-2500:]}")
        m.check(p.stdout == "", lambda: f"{name} printed {p.stdout[:500]!r}")
        m.check(p.stderr == "", lambda: f"{name} printed {p.stderr[:2500]!r}")
        missing = [w for w in [*PLACES[mode], "end", *(["odd answers"] if odd and mode == "plain" else [])] if w not in places]
        m.check(not missing, lambda: f"{name}: no call came back from: {missing}")
        for w, n in places.items():
            m.count(f"calls: {w}" if w not in ("end",) else "processes that ended", n)
        m.count(f"environment: {label}")
        m.sample(lambda: f"{name}: {len(records)} calls")
        for x in ("", ".stdout", ".stderr"):
            os.unlink(out + x)


pymon.run(body)
