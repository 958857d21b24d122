"""C19: calls from everywhere in a program's life."""
import os

import common


def check(run):
    run.rule = ("Processes that make the same operations in destructors while panics unwind and while threads end, in exit handlers, before main, "
                "in forked copies, within code of the caller's that a call runs, and after such code panicked; digests compared with those of "
                "the operations made plainly. Distinct: process, place and operation.")
    run.assumptions = ["the harness, rustc and this machine work as intended"]
    d = common.build(common.HARNESS, tag="harness")
    library = os.path.join(run.scratch, "libsurroundings.so")
    p = common.sh(["gcc", "-O1", "-shared", "-fPIC", "-o", library, os.path.join(common.VERIF, "py", "surroundings.c"), "-ldl"], 100)
    if p.returncode != 0:
        raise common.Inconclusive(f"building the library of odd answers failed: {p.stdout}")
    result = common.observe(run, [os.path.join(d, "life"), "C19", "--surroundings", library, "--processes", str(run.amount(2100, 100_000))])
    run.absorb(result, 100_000)
