"""P01-P07: the Python binding, built from /repo and watched from Python."""
import glob
import os
import shutil
import subprocess

import common
from common import BUILD, REPO, VERIF, Inconclusive, parallel

BINDING = os.path.join(REPO, "crates", "unicode-intervals-py")
PYTHON = "/opt/vp/venv/bin/python"
PY = os.path.join(VERIF, "py")

RULES = {
    "P01": "Queries written in many ways (any iterable of names, omitted or None, str and int subclasses, versions obtained "
           "four ways), results compared with the harness model. Distinct: query.",
    "P02": "Version values obtained every way compared with each other and with other objects; category lists and all "
           "single and paired names and random lists, per version. Distinct: names and version.",
    "P03": "Bad calls of every kind mixed with good ones, alone and several faults at once; good calls after bad ones compared "
           "with the model. Distinct: faults and arguments.",
    "P04": "Random arguments given to the binding and to Hypothesis' charmap, and every codepoint's category against "
           "unicodedata. Distinct: arguments.",
    "P05": "First calls raced in fresh processes, module import included, and mixed calls from many threads with tiny switch "
           "intervals and collections at every allocation. Distinct: process and call.",
    "P06": "Each kind of call, succeeding and failing, repeated with ever new arguments: reference counts around every call, "
           "interpreter blocks and malloc bytes around every batch. Distinct: kind and arguments.",
    "P07": "Stub and runtime compared by signature and by stubtest, and every kind of argument the stub allows. Distinct: "
           "function, parameter and kind of argument.",
    "P09": "Fresh processes that call in forked copies, pool workers, signal handlers, finalizers, trace functions and exit handlers, "
           "after second imports and in odd environments; results compared with the model, statuses and output watched. "
           "Distinct: mode, environment, place and call.",
}


def extension(run, profile="dev"):
    """Build the extension as the repository does and lay out the package in a scratch directory."""
    out = os.path.join(BUILD, f"binding-{profile}")
    env = common.cargo_env(PYO3_PYTHON=PYTHON, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=out,
                           CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    p = common.sh(["cargo", "build", "-p", "unicode-intervals-py", "--offline", "--profile", profile], 800, cwd=REPO, env=env)
    if p.returncode != 0:
        raise Inconclusive(f"building the extension failed:\n{p.stdout[-6000:]}")
    lib = os.path.join(out, "debug" if profile == "dev" else profile, "libunicode_intervals.so")
    if not os.path.exists(lib):
        raise Inconclusive(f"no extension in {out}")
    root = os.path.join(run.scratch, f"package-{profile}")
    package = os.path.join(root, "unicode_intervals")
    os.makedirs(package)
    for f in glob.glob(os.path.join(BINDING, "python", "unicode_intervals", "*")):
        if os.path.isfile(f) and not f.endswith((".so", ".pyc", ".pyd")):
            shutil.copy(f, package)
    shutil.copy(lib, os.path.join(package, "unicode_intervals.abi3.so"))
    return root


def python_env(root, part=0, **more):
    """Every second process has an interpreter that checks its memory and its callers."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "HYPOTHESIS"))}
    env.update(PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", PYTHONFAULTHANDLER="1", VERIF_PACKAGE=root,
               PATH="/opt/vp/venv/bin:" + env.get("PATH", ""), **more)
    if part % 2:
        env.update(PYTHONMALLOC="debug", PYTHONDEVMODE="1")
    return env


def generator():
    return os.path.join(common.build(common.HARNESS, tag="harness"), "pygen")


def cases(run, pygen, start, count):
    path = os.path.join(run.scratch, f"cases-{start}.jsonl")
    with open(path, "w") as f:
        p = subprocess.run([pygen, str(run.seed), str(start), str(count)], stdout=f, check=False)
    if p.returncode != 0:
        raise Inconclusive(f"making cases failed: {p.returncode}")
    return path


def watch(run, root, name, parts, extra=(), timeout=None, **settings):
    """Run one monitor in several processes."""
    def one(i):
        more = extra(i) if callable(extra) else list(extra)
        # A panic that reaches the interpreter prints this, whatever becomes of the exception.
        return common.observe(run, [PYTHON, "-B", os.path.join(PY, f"{name}.py"), "--part", str(i), *more], name=f"{name}-{i}",
                              env=python_env(root, i, **settings), memory=None, journal=False, cwd=run.scratch, timeout=timeout,
                              reports=["panicked at", "Fatal Python error"])
    for result in parallel(*[lambda i=i: one(i) for i in range(parts)]):
        run.absorb(result)


def check(run):
    run.rule = RULES[run.prop]
    run.assumptions = ["CPython and the harness' models work as intended",
                       "the golden data (harness/golden/gc.txt) is the Unicode Character Database's"]
    globals()[run.prop.lower()](run)


def need(run, floor):
    if not run.violations and run.evaluations < floor:
        raise Inconclusive(f"only {run.evaluations} executions observed, {floor} expected")


def p01(run):
    root, pygen = parallel(lambda: extension(run), generator)
    n = run.amount(5000, 150_000)
    huge = run.amount(11, 200)
    watch(run, root, "p01", 12, lambda i: ["--huge", str(huge)] if i >= 8 else ["--cases", cases(run, pygen, i * 100_000, n)])
    need(run, 8 * n)


def p02(run):
    root = extension(run)
    n = run.amount(3000, 200_000)
    watch(run, root, "p02", 4, ["--amount", str(n)])
    need(run, 4 * n)


def p03(run):
    root, pygen = parallel(lambda: extension(run), generator)
    n = run.amount(6000, 300_000)
    watch(run, root, "p03", 8, lambda i: ["--cases", cases(run, pygen, 50_000 + i * 1000, 400), "--amount", str(n)])
    need(run, 8 * n)


def p04(run):
    root = extension(run)
    n = run.amount(4000, 100_000)

    def env(i):
        d = os.path.join(run.scratch, f"hypothesis-{i}")
        os.makedirs(d, exist_ok=True)
        return python_env(root, i, HYPOTHESIS_STORAGE_DIRECTORY=d)
    # The charmap module writes its cache while it loads, so each process gets its own directory.
    def one(i):
        return common.observe(run, [PYTHON, "-B", os.path.join(PY, "p04.py"), "--part", str(i), "--amount", str(n)],
                              name=f"p04-{i}", env=env(i), memory=None, journal=False, cwd=run.scratch,
                              reports=["panicked at", "Fatal Python error"])
    for result in parallel(*[lambda i=i: one(i) for i in range(8)]):
        run.absorb(result)
    need(run, 8 * n)


def p05(run):
    root, pygen = parallel(lambda: extension(run), generator)
    path = cases(run, pygen, 90_000, 400)
    watch(run, root, "p05", 4, ["--cases", path, "--amount", str(run.amount(60, 1500))], timeout=run.amount(400, 6 * 3600))
    need(run, 10_000)


def p09(run):
    root, pygen = parallel(lambda: extension(run), generator)
    path = cases(run, pygen, 95_000, 300)
    for source, library in (("surroundings.c", "libsurroundings.so"), ("canary.c", "unicode_intervals_canary.so")):
        p = common.sh(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(run.scratch, library), os.path.join(PY, source), "-ldl"], 100)
        if p.returncode != 0:
            raise Inconclusive(f"building {library} failed: {p.stdout}")
    watch(run, root, "p09", 8, ["--cases", path, "--spies", run.scratch, "--amount", str(run.amount(48, 1200))], timeout=run.amount(600, 6 * 3600))
    need(run, 20_000)


def p06(run):
    root = extension(run)
    # Without per-thread caches, what malloc counts as live is exactly what has not been freed.
    watch(run, root, "p06", 8, ["--amount", str(run.amount(1500, 60_000))], GLIBC_TUNABLES="glibc.malloc.tcache_count=0")
    need(run, 50_000)


def p07(run):
    root = extension(run)
    watch(run, root, "p07", 8, ["--amount", str(run.amount(1500, 60_000))])
    stubtest(run, root)
    need(run, 5000)


def stubtest(run, root):
    """mypy's comparison of the stub with the runtime."""
    allow = os.path.join(run.scratch, "allow")
    with open(allow, "w") as f:
        # The compiled module inside the package is not public and has no stub of its own.
        f.write("unicode_intervals\\.unicode_intervals\n")
    p = common.sh(["python3-vt", "-B", "-m", "mypy.stubtest", "unicode_intervals", "--concise", "--allowlist", allow,
                   "--ignore-unused-allowlist"], 300, cwd=run.scratch,
                  env=python_env(root, MYPYPATH=root, MYPY_CACHE_DIR=os.path.join(run.scratch, "mypy")))
    run.seen_stubtest = p.returncode
    run.evaluations += 1
    run.distinct += 1
    run.classes["stubtest runs"] = 1
    if p.returncode != 0:
        lines = [x for x in p.stdout.splitlines() if x.startswith("unicode_intervals.") or x.startswith("unicode_intervals ")]
        if not lines:
            raise Inconclusive(f"stubtest failed:\n{p.stdout[-3000:]}")
        run.violation("stubtest: " + "; ".join(lines))
