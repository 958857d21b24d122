"""C05: concurrent use, natively, under ThreadSanitizer and under Miri."""
import os

import common
from common import HARNESS, TARGET, build, observe, parallel

TSAN = ["WARNING: ThreadSanitizer", "ERROR: ThreadSanitizer", "SUMMARY: ThreadSanitizer"]
UNSAFE_TO_SHARE = ["cannot be shared between threads safely", "cannot be sent between threads safely"]
MIRI = ["Undefined Behavior", "memory leaked", "error: deadlock", "the evaluated program deadlocked", "error: abnormal termination"]


def check(run):
    run.rule = ("Operations over the whole public API run by up to 13 threads at once, sometimes 360 (in lockstep or in different orders, "
                "giving way at random allocations) and alone; sets, queries and iterators shared between and handed over "
                "to threads; first calls of fresh processes raced. Natively, under ThreadSanitizer and under Miri with "
                "several schedules. Distinct: operations, shared sets.")
    run.assumptions = ["ThreadSanitizer and Miri report what they are meant to",
                       "the harness, rustc and this machine work as intended"]
    native, log = build(HARNESS, tag="harness", fail=False)
    if native is None:
        # The monitors hand sets, queries and iterators to other threads; the compiler observes first.
        hit = next((x for x in UNSAFE_TO_SHARE if x in log), None)
        if hit is None:
            raise common.Inconclusive(f"building the harness failed:\n{log[-6000:]}")
        run.evaluations += 1
        run.distinct += 1
        run.violation(f"what a query gives can no longer be used by several threads: {log[max(log.find(hit) - 200, 0):][:2000]}")
        return
    tsan, = parallel(
        lambda: build(HARNESS, profile="checked", toolchain="nightly", tag="harness-tsan", rustflags="-Zsanitizer=thread",
                      extra=["--target", TARGET, "-Zbuild-std"]))
    result = observe(run, [os.path.join(native, "conc"), "C05", "--threads", "2", "--rounds", str(run.amount(400, 8000)),
                           "--fresh", str(run.amount(300, 6000)), "--lookups", str(run.amount(6000, 40000)), "--crowds", str(run.amount(12, 400))],
                     name="native", memory=24 << 30)
    run.extra["native"] = result.get("classes")
    run.absorb(result, 100_000)
    if run.violations:
        return
    env = common.cargo_env(TSAN_OPTIONS="exitcode=0:halt_on_error=0:report_thread_leaks=0")
    result = observe(run, [os.path.join(tsan, "conc"), "C05", "--threads", "2", "--rounds", str(run.amount(60, 2000)),
                           "--fresh", str(run.amount(40, 1000)), "--lookups", "2000", "--ops", "16", "--times", "300", "--crowds", str(run.amount(1, 20))],
                     name="tsan", memory=None, env=env, reports=TSAN)
    run.extra["under ThreadSanitizer"] = result.get("classes")
    run.absorb(result, 10_000)
    if run.violations:
        return

    def miri(i):
        env = common.cargo_env(CARGO_TARGET_DIR=os.path.join(common.BUILD, "harness-miri"),
                               MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-seed={i} -Zmiri-preemption-rate=0.{1 + i % 3}")
        return observe(run, ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "conc", "--", "C05", "--light",
                             "--threads", "1", "--rounds", "1", "--inner", "3", "--ops", str(run.amount(4, 60)), "--lookups",
                             str(run.amount(40, 1000)), "--max-text", "8", "--times", "3"],
                       name=f"miri{i}", seed=run.seed * 1000 + i, journal=False, memory=None, env=env, cwd=HARNESS, reports=MIRI)

    first = miri(0)
    rest = parallel(*[lambda i=i: miri(i) for i in range(1, 8)])
    run.extra["Miri schedules"] = 8
    for result in [first, *rest]:
        run.absorb(result, 40)
