"""C18: what operations take and keep of memory."""
import os
import re

import common


def check(run):
    d = common.build(common.HARNESS, tag="harness")
    run.rule = ("Queries of every kind, their interval sets, lookups, iteration and clones, expansion and parsing in processes whose "
                "allocator counts: the most in use during each operation and what its result keeps, against a bound linear in the "
                "bytes of its arguments, the version's table and the intervals of the result. Distinct: hash of the arguments.")
    run.assumptions = ["memory is taken through Rust's global allocator", "the harness, rustc and this machine work as intended"]
    most = {}
    # Each has one worker, so that all that is counted is its operation's.
    results = common.parallel(*[lambda i=i: common.observe(run, [os.path.join(d, "memory")], name=f"m{i}", seed=run.seed * 100 + i)
                                for i in range(8)])
    for result in results:
        run.absorb(result, 1500)
        for share, used, kind in re.findall(r"^most (-?\d+) (-?\d+) (.+)$", result.get("stderr", ""), re.M):
            a, b = most.get(kind, (0, 0))
            most[kind] = (max(a, int(share)), max(b, int(used)))
    run.extra["most in use"] = {k: f"{used} bytes, {share} % of what is allowed" for k, (share, used) in sorted(most.items())}
