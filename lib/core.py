"""C01-C14 except C05: the native monitors of the core crate."""
import os

import common

RULES = {
    "C01": "Every window below 256 for every version and category (included, excluded, and with a far character), "
           "windows around every edge of every category's golden intervals, all category pairs and triples, every "
           "character alone, and random specifications in chains of one-field changes. Distinct: hash of the "
           "specification (of version, category and variant for the window sweep).",
    "C02": "As C01, each result through a canonical-form monitor, plus pairs of queries written differently but "
           "describing the same set. Distinct: hash of the specification.",
    "C03": "Every pair of 46 interesting bounds in every version with plain and busy filters, and random bounds. "
           "Distinct: hash of the specification.",
    "C04": "Histories of setters, clones, comparisons, evaluations and drops over several live queries, all setter "
           "orders, and text buffers rewritten in place. Distinct: settings evaluated, setter orders.",
    "C06": "Every lookup for every value and index of whole sets, for sets of up to 557056 intervals, and around "
           "the ends of every interval of random sets. Evaluations are lookups; distinct: sets (by intervals).",
    "C07": "Histories of operations on several clones of an iterator, ending in an alternating drain. "
           "Distinct: set, remaining range, operation and argument.",
    "C08": "Counting the entries each codepoint is in, for every version, and every way to ask for one category. "
           "Distinct: version, category, way.",
    "C09": "Every table entry by four routes against golden data, every codepoint asked for alone, random windows. "
           "Distinct: version, category, window; blocks of single codepoints.",
    "C10": "Every codepoint of each version compared with the version before, by four routes. "
           "Distinct: version, route, fixed category.",
    "C11": "Repeated evaluation at run time from many threads, evaluation at compile time, and expansion of random "
           "name lists. Distinct: version and repetition or list.",
    "C12": "All strings of up to two ASCII characters, all pairs (and triples) of names, random lists with and "
           "without bad names. Distinct: version and list.",
    "C13": "Histories of set operations over four registers, each result observed in every way, and walks over all "
           "subsets by single changes. Distinct: operation, operand, result; walk segments.",
    "C14": "All ASCII strings of up to three characters, all dotted numbers below 100, all strings one edit from a "
           "name, random strings. Distinct: names and random strings (sweeps count one per block).",
}
FLOORS = {
    "C01": 20_000_000, "C02": 20_000_000, "C03": 100_000, "C04": 100_000, "C06": 10_000_000, "C07": 100_000,
    "C08": 3000, "C09": 1_000_000, "C10": 200, "C11": 5000, "C12": 100_000, "C13": 1_000_000, "C14": 2_000_000,
}


def check(run):
    d = common.build(common.HARNESS, tag="harness")
    run.rule = RULES[run.prop]
    run.assumptions = ["the golden data (harness/golden/gc.txt) is the Unicode Character Database's",
                       "the harness, rustc and this machine work as intended"]
    result = common.observe(run, [os.path.join(d, "harness"), run.prop])
    run.extra["stages"] = result.get("stages", [])
    run.absorb(result, FLOORS[run.prop])
    if run.prop == "C11" and not run.violations:
        compile_time(run)


def compile_time(run):
    """The normalised order as constants of a crate of their own."""
    d, log = common.build(os.path.join(common.VERIF, "consts"), tag="consts", profile="dev", fail=False)
    if d is None:
        if "error[E0015]" in log or "error[E0080]" in log:
            run.violation(f"the order cannot be evaluated at compile time:\n{log[-3000:]}")
            return
        raise common.Inconclusive(f"building consts failed:\n{log[-4000:]}")
    result = common.observe(run, [os.path.join(d, "consts")], name="consts")
    run.classes["orders evaluated at compile time"] = result["evaluations"]
    run.absorb(result, 11)
