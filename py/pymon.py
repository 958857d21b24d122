"""What the Python monitors share: the module under observation, golden data, results."""
import argparse
import array
import json
import os
import random
import sys
import time
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
ABBREVIATIONS = ("Cc Cf Cn Co Cs Ll Lm Lo Lt Lu Mc Me Mn Nd Nl No Pc Pd Pe Pf Pi Po Ps Sc Sk Sm So Zl Zp Zs").split()
MAJORS = list("LMNPSZC")
VERSIONS = ["9.0.0", "10.0.0", "11.0.0", "12.0.0", "12.1.0", "13.0.0", "14.0.0", "15.0.0", "15.1.0", "16.0.0", "17.0.0"]
MAX = 0x10FFFF


class Golden:
    """Intervals per category and the normalised order of each version."""

    def __init__(self):
        self.runs = {}
        self.by_cat = {}
        self.order = {}
        starts = None
        with open(os.path.join(HERE, "..", "harness", "golden", "gc.txt")) as f:
            for line in f:
                a, b = line.split()
                if a == "V":
                    starts = self.runs.setdefault(b, [])
                else:
                    starts.append((int(a, 16), b))
        for v, starts in self.runs.items():
            cats = {c: [] for c in ABBREVIATIONS}
            for i, (lo, c) in enumerate(starts):
                hi = starts[i + 1][0] - 1 if i + 1 < len(starts) else MAX
                cats[c].append((lo, hi))
            self.by_cat[v] = cats
            free = [c for c in ABBREVIATIONS if c not in ("Cc", "Cs")]
            self.order[v] = (*sorted(free, key=lambda c: (len(cats[c]), c)), "Cc", "Cs")
        assert list(self.runs) == VERSIONS

    def expand(self, names, version):
        """The expanded names, or the first bad one as a list."""
        out = set()
        for n in names:
            if n in MAJORS:
                out.update(c for c in ABBREVIATIONS if c[0] == n)
            elif n in ABBREVIATIONS:
                out.add(n)
            else:
                return [n]
        return tuple(c for c in self.order[version] if c in out)

    def cover(self, version, included, excluded, lo, hi, characters):
        """The intervals of a query; `included` None stands for all categories."""
        cats = self.by_cat[version]
        lo, hi = 0 if lo is None else lo, MAX if hi is None else hi
        found = [(max(a, lo), min(b, hi)) for c in ABBREVIATIONS if (included is None or c in included) and c not in excluded
                 for a, b in cats[c] if a <= hi and b >= lo]
        found += [(ord(x), ord(x)) for x in characters]
        out = []
        for a, b in sorted(found):
            if out and a <= out[-1][1] + 1:
                out[-1][1] = max(b, out[-1][1])
            else:
                out.append([a, b])
        return out


def crc(intervals):
    flat = array.array("I", [x for pair in intervals for x in pair])
    return zlib.crc32(flat.tobytes())


class Failed(Exception):
    """A violation was recorded; stop."""


class Mon:
    def __init__(self):
        p = argparse.ArgumentParser()
        p.add_argument("--seed", type=int, default=1)
        p.add_argument("--tier", default="quick")
        p.add_argument("--part", type=int, default=0)
        p.add_argument("--out")
        p.add_argument("--cases")
        p.add_argument("--spies")
        p.add_argument("--amount", type=int, default=0)
        p.add_argument("--huge", type=int, default=0)
        self.args = p.parse_args()
        self.thorough = self.args.tier == "thorough"
        self.r = random.Random(self.args.seed * 1009 + self.args.part)
        self.evaluations = 0
        self.keys = set()
        self.classes = {}
        self.samples = []
        self.violations = []
        self.next_sample = 1

    def seen(self, key=None):
        self.evaluations += 1
        if key is not None and len(self.keys) < 1 << 20:
            self.keys.add(zlib.crc32(repr(key).encode("utf-8", "backslashreplace")))

    def count(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + n

    def sample(self, text):
        if self.evaluations >= self.next_sample and len(self.samples) < 6:
            self.next_sample = self.evaluations * 7 + 1
            self.samples.append(text()[:400])

    def fail(self, text):
        self.violations.append(text[:3000])
        raise Failed

    def check(self, ok, text):
        if not ok:
            self.fail(text() if callable(text) else text)

    def finish(self):
        result = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.keys), "classes": self.classes,
                  "samples": self.samples, "violations": self.violations}
        if self.args.out:
            with open(self.args.out, "w") as f:
                json.dump(result, f)
        else:
            json.dump(result, sys.stdout, indent=1)
        sys.stdout.flush()
        # Leave at once: nothing at interpreter shutdown is under observation.
        os._exit(1 if self.violations else 0)


def load():
    """Import the module under observation, from where it was put for us and nowhere else."""
    import unicode_intervals as u

    root = os.environ.get("VERIF_PACKAGE")
    if root and not os.path.abspath(u.__file__).startswith(root + os.sep):
        print(f"wrong module: {u.__file__}", file=sys.stderr)
        sys.exit(3)
    return u


def run(body):
    m = Mon()
    try:
        body(m)
    except Failed:
        pass
    m.finish()


def cases(path):
    with open(path) as f:
        for line in f:
            yield json.loads(line)


def shorten(x):
    t = ascii(x)
    return t if len(t) <= 600 else t[:500] + f"... ({len(t)} characters)"


def elapsed(start):
    return time.monotonic() - start


class Str(str):
    """A subclass that behaves as its base."""


class List(list):
    """A subclass that behaves as its base."""


class Int(int):
    """A subclass that behaves as its base."""


class Custom:
    """An iterable that is nothing else."""

    def __init__(self, items):
        self.items = list(items)
        self.iters = 0

    def __iter__(self):
        self.iters += 1
        return iter(self.items)


class Sequence:
    """The old protocol: only __getitem__."""

    def __init__(self, items):
        self.items = list(items)

    def __getitem__(self, i):
        return self.items[i]


def generator(items):
    yield from items


KINDS = {
    "list": list,
    "tuple": tuple,
    "set": set,
    "frozenset": frozenset,
    "generator": lambda x: generator(list(x)),
    "iterator": lambda x: iter(list(x)),
    "dict": dict.fromkeys,
    "dict keys": lambda x: dict.fromkeys(x).keys(),
    "dict values": lambda x: dict(enumerate(x)).values(),
    "map": lambda x: map(str, list(x)),
    "filter": lambda x: filter(None, list(x)),
    "deque": lambda x: __import__("collections").deque(x),
    "custom": Custom,
    "reversed": lambda x: reversed(list(x)),
    "chain": lambda x: __import__("itertools").chain(list(x)[:1], list(x)[1:]),
    "list subclass": lambda x: List(x),
    "user list": lambda x: __import__("collections").UserList(x),
    "array of strings": lambda x: (y for y in __import__("collections").OrderedDict.fromkeys(x)),
}
