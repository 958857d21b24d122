"""P08: instructions executed by calls of the binding, counted by callgrind."""
import os

import binding
import common
from common import Inconclusive, parallel

PLACES = ["include", "exclude", "both", "with categories"]
# Four times the size may cost this much more: n log n gives under 5, a quadratic term 16.
RATIO, SLACK = 8, 200_000
# Calls made earlier may add nothing that grows.
HISTORY_RATIO, HISTORY_SLACK = 1.4, 5_000


def measure(run, root, library, scenario, sizes):
    """Counts by name and size, and what is wrong with the measurements themselves."""
    d = os.path.join(run.scratch, "cg " + scenario)
    os.makedirs(d)
    cmd = ["valgrind", "--tool=callgrind", "--toggle-collect=measured", "--zero-before=measured", "--dump-after=measured",
           "--callgrind-out-file=cg.out", binding.PYTHON, "-B", os.path.join(binding.PY, "p08.py"), "--library", library, "--labels",
           "labels", "--scenario", scenario, "--sizes", ",".join(map(str, sizes))]
    run.commands.append(" ".join(cmd))
    limit = run.amount(450, 3 * 3600)
    env = binding.python_env(root, PYTHONHASHSEED="0", HOME=d)
    try:
        p = common.run_group(cmd, limit, cwd=d, env=env)
    except common.subprocess.TimeoutExpired:
        p = None
    out, bad, names = {}, [], []
    path = os.path.join(d, "labels")
    if os.path.exists(path):
        with open(path) as f:
            for line in f.read().splitlines():
                (bad if line.startswith("!") else names).append(line.lstrip("!"))
    for i, line in enumerate(names, 1):
        name, n = line.rsplit("\t", 1)
        try:
            with open(os.path.join(d, f"cg.out.{i}")) as g:
                out.setdefault(name, {})[int(n)] = next(int(x.split()[1]) for x in g if x.startswith("totals:"))
        except (OSError, StopIteration) as e:
            if p is None:
                # A minute's work at most; nothing but the code under test takes this long.
                bad.append(f"{name}, size {n}, did not finish in {limit} s")
                break
            raise Inconclusive(f"{scenario}: no count for {name}: {p.stderr[-2000:]}") from e
    if p is None and not bad:
        raise Inconclusive(f"measuring {scenario} took longer than {limit} s")
    if p is not None and p.returncode < 0:
        bad.append(f"the process died of signal {-p.returncode} in {names[-1:]}: {p.stderr[-1000:]}")
    elif p is not None and p.returncode != 0:
        raise Inconclusive(f"measuring {scenario} failed ({p.returncode}):\n{p.stderr[-3000:]}")
    return out, bad


def check(run):
    run.rule = ("Instructions of each call at sizes four times apart: strings in 10 orders in 4 places, many names in 5 kinds of "
                "iterable, long names and versions, and 16 small calls after ever more different earlier ones. Distinct: "
                "measurements.")
    run.assumptions = ["callgrind counts instructions correctly", "instructions executed stand for time",
                       "CPython's own part of a call is near-linear"]
    library = os.path.join(run.scratch, "libmeasured.so")
    p = common.sh(["gcc", "-O1", "-shared", "-fPIC", "-o", library, os.path.join(binding.PY, "measured.c")], 100)
    if p.returncode != 0:
        raise Inconclusive(f"building the marker failed: {p.stdout}")
    root = binding.extension(run, "release")
    sizes = run.amount([6000, 24000], [6000, 24000, 96000, 384000])
    jobs = [*[(x, sizes) for x in PLACES], ("names", run.amount([2500, 10000], [2500, 10000, 40000, 160_000])), ("long", sizes),
            ("history", run.amount([16, 1000, 12_000], [16, 1000, 12_000, 50_000, 200_000]))]
    found = parallel(*[lambda j=j: measure(run, root, library, *j) for j in jobs])
    costs = {j[0]: f[0] for j, f in zip(jobs, found)}
    run.extra["instructions"] = costs
    for scenario, table in costs.items():
        for name, by_size in table.items():
            run.evaluations += len(by_size)
            run.distinct += len(by_size)
            order = sorted(by_size)
            for small, large in zip(order, order[1:]):
                if scenario == "history":
                    a, b = by_size[order[0]], by_size[large]
                    if b > HISTORY_RATIO * a + HISTORY_SLACK:
                        run.violation(f"{name} takes {a} instructions after {order[0]} other calls and {b} after {large}")
                else:
                    a, b = by_size[small], by_size[large]
                    if b > RATIO * a + SLACK:
                        run.violation(f"{name} takes {a} instructions at size {small} and {b} at {large}")
    for _, bad in found:
        for x in bad:
            run.violation(x)
    run.samples += [f"{k}: {v}" for t in costs.values() for k, v in list(t.items())[:2]]
    if not run.violations and run.evaluations < 300:
        raise Inconclusive(f"only {run.evaluations} measurements")
