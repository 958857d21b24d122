"""C16: the interval algebra exposed for benchmarking."""
import os

import common


def check(run):
    run.rule = ("Merging all lists of up to four intervals over six points and six over four points, subtracting all pairs of subsets "
                "of ten points, at six places of the codespace; random lists of up to 5000 intervals; every character "
                "and random strings; category sets; all against bitmaps. Distinct: arguments.")
    run.assumptions = ["the golden data (harness/golden/gc.txt) is the Unicode Character Database's",
                       "the harness, rustc and this machine work as intended"]
    d = common.build(os.path.join(common.VERIF, "algebra"), tag="algebra")
    result = common.observe(run, [os.path.join(d, "algebra"), "C16"])
    run.extra["stages"] = result.get("stages", [])
    run.absorb(result, 5_000_000)
