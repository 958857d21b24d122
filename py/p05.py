"""P05: many threads, first calls included."""
import json
import os
import subprocess
import sys

import pymon
from pymon import VERSIONS, shorten

CHILD = os.path.join(pymon.HERE, "p05child.py")
MODES = ["same", "different", "query", "import", "all", "mixed", "collect", "busy"]
BAD = ["ValueError", "OverflowError", "TypeError", "UnicodeEncodeError", "ValueError"]


def body(m):
    pymon.load()
    golden = pymon.Golden()
    cases = list(pymon.cases(m.args.cases))
    for i in range(m.args.amount):
        mode = MODES[i % len(MODES)]
        threads = m.r.choice([2, 3, 4, 8, 16, 32])
        seed = m.r.randrange(1 << 20)
        name = f"a process ({mode}, {threads} threads, seed {seed})"
        try:
            p = subprocess.run([sys.executable, "-B", CHILD, mode, str(threads), str(seed), m.args.cases], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=90, text=True, errors="replace")
        except subprocess.TimeoutExpired as e:
            m.fail(f"{name} did not finish in 90 s: {(e.stderr or b'')[-2500:]!r}")
        if p.returncode < 0 and -p.returncode in (4, 5, 6, 7, 8, 11):
            m.fail(f"{name} died of signal {-p.returncode}: {p.stderr[-2000:]}")
        m.check("panicked at" not in p.stderr, lambda: f"{name} panicked: {p.stderr[-2000:]}")
        if p.returncode != 0:
            raise RuntimeError(f"{name} failed: {p.stderr[-2000:]}")
        result = json.loads(p.stdout)
        m.check(not result["errors"], lambda: f"{name}: {result['errors'][:3]}")
        ids = {}
        for t, got in enumerate(result["out"]):
            for what, value in got:
                kind = what[0].removeprefix("busy ")
                if kind == "query":
                    want = cases[what[1]][-1]
                    if isinstance(want, list) and (not want or isinstance(want[0], list)):
                        want = [len(want), pymon.crc(want)]
                elif kind == "categories":
                    ids.setdefault(what[1], set()).add(value[0])
                    value, want = value[1], list(golden.order[what[1]])
                elif kind == "expand":
                    want = golden.expand(what[2], what[1])
                    want = list(want) if isinstance(want, tuple) else "rejected"
                elif kind == "version":
                    want = [what[1], VERSIONS[-1], VERSIONS, True]
                else:
                    want = BAD
                m.check(value == want, lambda: f"{name}: thread {t} got {shorten(value)} from {shorten(what)}, should be {shorten(want)}")
                m.seen((i, what))
        for v, objects in ids.items():
            m.check(len(objects) == 1, lambda: f"{name}: categories({v}) gave {len(objects)} different objects")
        m.check(len(set.union(*ids.values())) == len(ids), lambda: f"{name}: categories() of different versions share an object")
        m.count("fresh processes")
        m.count(f"processes racing: {mode}")
        m.count("threads", threads)
        m.count("calls made while another call read its arguments", result["nested"])
        m.count("copies of a process made during a call", result["forks"])
        m.sample(lambda: f"{name}: {len(result['out'])} threads, {sum(map(len, result['out'][:-1]))} calls")


pymon.run(body)
