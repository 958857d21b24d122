"""C17: instructions executed by lookups and queries, counted by callgrind."""
import os
import subprocess

import common

PLACES = ["include", "exclude", "both, equal", "both, interleaved", "include with tables", "around a window", "opposite"]
REPEAT = 64
# A lookup may cost this much more on a set hundreds of times as large (a logarithm grows less than twice).
LOOKUP_RATIO, LOOKUP_SLACK = 4, 200 * REPEAT
# Four times the characters may cost this much more: n log n gives under 5, a quadratic term 16.
QUERY_RATIO, QUERY_SLACK = 8, 200_000
# Operations done earlier may add nothing that grows.
HISTORY_RATIO, HISTORY_SLACK = 1.4, 5_000
# Strings and tables together, over the parts.
SUM_RATIO = 5


def measure(run, program, scenario, sizes, index):
    d = os.path.join(run.scratch, f"cg{index}")
    os.makedirs(d)
    cmd = ["valgrind", "--tool=callgrind", "--toggle-collect=measured", "--zero-before=measured", "--dump-after=measured",
           "--callgrind-out-file=cg.out", program, "--labels", "labels", "--scenario", scenario, "--sizes",
           ",".join(map(str, sizes))]
    run.commands.append(" ".join(cmd))
    try:
        p = subprocess.run(cmd, cwd=d, timeout=run.amount(600, 3 * 3600), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", env=common.cargo_env())
    except subprocess.TimeoutExpired as e:
        raise common.Inconclusive(f"measuring {scenario} took too long") from e
    if p.returncode != 0:
        raise common.Inconclusive(f"measuring {scenario} failed ({p.returncode}):\n{p.stdout[-3000:]}")
    out = {}
    with open(os.path.join(d, "labels")) as f:
        for i, line in enumerate(f, 1):
            name, n = line.strip().rsplit(" ", 1)
            with open(os.path.join(d, f"cg.out.{i}")) as g:
                totals = [x for x in g if x.startswith("totals:")]
            out.setdefault(name, {})[int(n)] = int(totals[0].split()[1])
    return out


def check(run):
    run.rule = ("Instructions of each lookup at 7 places of sets of 1000 to 400000 intervals and of few intervals but many "
                "codepoints; of queries in 7 arrangements of 14 string patterns at sizes four times apart; of whole iterations, category lists, long "
                "names, and 10 small operations after ever more different earlier ones. Queries of a "
                "million characters must come back at all. Distinct: measurements and huge queries.")
    run.assumptions = ["callgrind counts instructions correctly",
                       "instructions executed stand for time", "the harness, rustc and this machine work as intended"]
    d = common.build(common.HARNESS, tag="harness")
    result = common.observe(run, [os.path.join(d, "cost"), "C17"], name="huge")
    run.absorb(result, 98)
    if run.violations:
        return
    program = os.path.join(d, "cost")
    sizes = run.amount([8000, 32000], [8000, 32000, 128000, 512000])
    jobs = [("lookups", run.amount([1000, 20000, 400000], [1000, 3000, 20000, 100000, 400000, 500000])),
            ("dense", [1000, 30000, 1000000]), *[(p, sizes) for p in PLACES], ("tables alone", [0])]
    jobs += [("walks", run.amount([8000, 32000], [8000, 32000, 128000, 480_000])), ("ends", run.amount([1000, 20000, 400000], [1000, 3000, 20000, 100000, 400000, 500000])), ("lists", sizes),
             ("history", run.amount([16, 1000, 16000, 60000], [16, 1000, 16000, 250_000, 500_000]))]
    found = common.parallel(*[lambda j=j, i=i: measure(run, program, *j, i) for i, j in enumerate(jobs)])
    costs = dict(zip([j[0] for j in jobs], found))
    run.extra["instructions"] = costs
    for scenario, table in costs.items():
        for name, by_size in table.items():
            run.evaluations += len(by_size)
            run.distinct += len(by_size)
            order = sorted(by_size)
            for small, large in zip(order, order[1:]):
                a, b = by_size[small], by_size[large]
                if scenario == "history":
                    a = by_size[order[0]]
                    if b > HISTORY_RATIO * a + HISTORY_SLACK:
                        run.violation(f"{name} takes {a} instructions after {order[0]} other operations and {b} after {large}")
                elif scenario == "ends":
                    a = by_size[order[0]]
                    if b > LOOKUP_RATIO * a + LOOKUP_SLACK:
                        run.violation(f"reading {name} takes {a} instructions on a set of {order[0]} intervals and {b} on one of {large}")
                elif scenario in ("walks", "lists"):
                    if b > QUERY_RATIO * a + QUERY_SLACK:
                        run.violation(f"{scenario}: {name} takes {a} instructions at size {small} and {b} at {large}")
                elif scenario in ("lookups", "dense"):
                    # All sizes against the smallest: nothing may build up.
                    a = by_size[order[0]]
                    if b > LOOKUP_RATIO * a + LOOKUP_SLACK:
                        what = "intervals" if scenario == "lookups" else "codepoints"
                        run.violation(f"{REPEAT} lookups ({name}) take {a} instructions on a set of {order[0]} {what} "
                                      f"and {b} on one of {large}")
                elif b > QUERY_RATIO * a + QUERY_SLACK:
                    run.violation(f"a query ({name}) takes {a} instructions with {small} characters and {b} with {large}")
    alone = next(iter(costs["tables alone"].values()))[0]
    for name, by_size in costs["include with tables"].items():
        pattern = name.split(": ", 1)[1]
        for n, c in by_size.items():
            parts = alone + costs["include"][f"include: {pattern}"][n] + costs["exclude"]["exclude: shuffled"][n]
            if c > SUM_RATIO * parts:
                run.violation(f"a query ({name}) takes {c} instructions with {n} characters and the tables, its parts {parts}")
    run.samples += [f"{k}: {v}" for t in costs.values() for k, v in list(t.items())[:2]]
