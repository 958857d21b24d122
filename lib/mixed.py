"""C15: the same operation stream in differently checked builds."""
import os

import common
from common import HARNESS, TARGET, build, observe, parallel

SANITIZERS = ["ERROR: AddressSanitizer", "SUMMARY: AddressSanitizer", "WARNING: MemorySanitizer", "SUMMARY: MemorySanitizer", "runtime error:"]
MIRI = ["Undefined Behavior", "memory leaked", "error: abnormal termination", "error: memory"]
# Pointers of 32 bits, and the other byte order.
OTHERS = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]
# How strictly pointers are looked at.
MODELS = [[], ["-Zmiri-tree-borrows"], ["-Zmiri-strict-provenance", "-Zmiri-symbolic-alignment-check"], ["-Zmiri-recursive-validation"]]


def check(run):
    run.rule = ("One stream of operations over the whole public API (queries, lookups, iteration, expansion, parsing, "
                "set operations, tables), with the window sweep below 257, run in each build; bytes allocated are "
                "balanced around every operation. Distinct: hash of the operation and its arguments, per build.")
    run.assumptions = ["AddressSanitizer, MemorySanitizer, Miri and the compiler's checks report what they are meant to",
                       "the harness, rustc and this machine work as intended"]
    blocks, per = run.amount(3000, 60000), 64
    args = ["--blocks", str(blocks), "--per", str(per), "--windows", "--long",
            str(run.amount(600_000, 3_000_000)), "--round", str(run.amount(13, 17))]
    # Optimised, everything checked, unoptimised, under AddressSanitizer, under MemorySanitizer. Where nothing else
    # watches what is read of memory, it holds a byte that differs from build to build.
    kinds = {
        "release": lambda: build(HARNESS, tag="harness"),
        "checked": lambda: build(HARNESS, profile="checked", tag="harness-checked"),
        "debug": lambda: build(HARNESS, profile="dev", tag="harness-dev"),
        "asan": lambda: build(HARNESS, profile="checked", toolchain="nightly", tag="harness-asan",
                              rustflags="-Zsanitizer=address", extra=["--target", TARGET]),
        "msan": lambda: build(HARNESS, profile="checked", toolchain="nightly", tag="harness-msan",
                              rustflags="-Zsanitizer=memory -Zsanitizer-memory-track-origins",
                              extra=["--target", TARGET, "-Zbuild-std"]),
    }
    fills = {"release": 0x00, "checked": 0xA5, "debug": 0x01, "asan": 0x7F}
    dirs = dict(zip(kinds, parallel(*kinds.values())))

    def one(kind):
        env = common.cargo_env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77",
                               MSAN_OPTIONS="exitcode=77")
        fill = ["--fill", str(fills[kind])] if kind in fills else []
        return observe(run, [os.path.join(dirs[kind], "mixed"), "C15", *args, *fill, "--digests",
                             os.path.join(run.scratch, f"{kind}.d")], name=kind, env=env,
                       memory=None if kind in ("asan", "msan") else 12 << 30, reports=SANITIZERS)

    small = ["--light", "--blocks", "1", "--per", str(run.amount(60, 1500)), "--max-text", "10", "--threads", "1"]

    def miri(i, target=None):
        """One short stream, interpreted as for this machine or as for another kind."""
        flags = ["-Zmiri-disable-isolation", *MODELS[i % len(MODELS)]]
        env = common.cargo_env(CARGO_TARGET_DIR=os.path.join(common.BUILD, f"harness-miri{target and '-' + target or ''}"),
                               MIRIFLAGS=" ".join(flags))
        if target:
            # The standard library for it is interpreted too; it is kept apart from this machine's.
            env["XDG_CACHE_HOME"] = os.path.join(common.BUILD, f"miri-{target}")
        result = observe(run, ["cargo", "+nightly", "miri", "run", *(["--target", target] if target else []), "--offline", "-q",
                               "--bin", "mixed", "--", *small, "--digests", os.path.join(run.scratch, f"miri-{target}-{i}.d")],
                         name=f"miri-{target}-{i}", seed=run.seed * 1000 + i, journal=False, memory=None, env=env, cwd=HARNESS,
                         reports=MIRI)
        if not result["violations"]:
            compare_small(run, i, target, result)
        return result

    def compare_small(run, i, target, result):
        native = observe(run, [os.path.join(dirs["release"], "mixed"), "C15", *small, "--digests",
                               os.path.join(run.scratch, f"same-{target}-{i}.d")], name=f"same-{target}-{i}", seed=run.seed * 1000 + i)
        read = []
        for name in (f"miri-{target}-{i}.d", f"same-{target}-{i}.d"):
            with open(os.path.join(run.scratch, name)) as f:
                read.append(f.read())
        if not native["violations"] and read[0] != read[1]:
            result["violations"].append(f"results differ between this machine's build and {target or 'the interpreted one'}, "
                                        f"seed {run.seed * 1000 + i}")

    def elsewhere(target):
        return [miri(100, target), *parallel(*[lambda i=i: miri(100 + i, target) for i in range(1, run.amount(2, 6))])]

    results = parallel(*[lambda k=k: one(k) for k in kinds])
    for kind, result in zip(kinds, results):
        run.absorb(result, blocks * per)
        run.extra.setdefault("builds", {})[kind] = result["evaluations"]
    if not run.violations:
        compare(run, list(kinds))
    if not run.violations:
        # The first run builds; the others find it built.
        def here():
            first = miri(0)
            return [first, *parallel(*[lambda i=i: miri(i) for i in range(1, 8)])]
        for name, results in zip(["miri", *OTHERS], parallel(here, *[lambda t=t: elsewhere(t) for t in OTHERS])):
            for result in results:
                run.absorb(result, 100)
                run.extra["builds"][name] = run.extra["builds"].get(name, 0) + result["evaluations"]


def compare(run, kinds):
    tables = {}
    for k in kinds:
        with open(os.path.join(run.scratch, f"{k}.d")) as f:
            tables[k] = dict(line.split() for line in f)
    base = tables[kinds[0]]
    run.extra["digests compared"] = len(base) * (len(kinds) - 1)
    for k in kinds[1:]:
        if tables[k].keys() != base.keys():
            raise common.Inconclusive(f"{k} ran other blocks than {kinds[0]}")
        bad = [b for b in base if tables[k][b] != base[b]]
        if bad:
            run.violation(f"results differ between the {kinds[0]} and {k} builds in {len(bad)} blocks, first [{bad[0]}]")
