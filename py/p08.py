"""P08: what calls cost. Under callgrind, every call of `measured` is one measurement, named in the labels file."""
import argparse
import ctypes
import gc
import random
import sys

import pymon
from pymon import ABBREVIATIONS, KINDS, VERSIONS

PLACES = ["include", "exclude", "both", "with categories"]
TEXTS = {
    "ascending": lambda n: range(0x1000, 0x1000 + 2 * n, 2),
    "descending": lambda n: range(0x1000 + 2 * n, 0x1000, -2),
    "contiguous": lambda n: range(0x10000, 0x10000 + n),
    "shuffled": lambda n: random.Random(n).sample(range(0x10000, 0x10FFFF, 2), n),
    "one character": lambda n: [0x1234] * n,
    "Latin-1": lambda n: (i * 3 % 256 for i in range(n)),
    "Latin-1 descending": lambda n: (255 - i % 256 for i in range(n)),
    "ASCII": lambda n: (i * 7 % 128 for i in range(n)),
    "far then Latin-1": lambda n: (0x10FFFF if i == 0 else i % 200 for i in range(n)),
    "sawtooth": lambda n: (0x1000 + i % 97 * 62 + i // 97 * 2 for i in range(n)),
}


def text(name, n):
    """Not across the surrogates, which a query does not take."""
    return "".join(chr(c if c < 0xD800 else c + 0x800 if c + 0x800 < 0x110000 else 1) for c in TEXTS[name](n))


class Log:
    def __init__(self, library, labels):
        self.lib = ctypes.CDLL(library)
        self.type = ctypes.CFUNCTYPE(None)
        self.labels = open(labels, "w")  # noqa: SIM115

    def run(self, name, n, f, wanted=None):
        """Measure one call and check how it ended."""
        out = []

        def go():
            try:
                out.append(f())
            except Exception as e:  # noqa: BLE001
                out.append(e)
        self.labels.write(f"{name}\t{n}\n")
        self.labels.flush()
        self.lib.measure(self.type(go))
        if wanted is not None and not (isinstance(out[0], wanted) if isinstance(wanted, type) else out[0] == wanted):
            self.labels.write(f"!{name}, size {n}: {pymon.shorten(out[0])}\n")
        return out[0]


def strings(log, u, place, sizes):
    for name in TEXTS:
        for n in sizes:
            s = text(name, n)
            more = {"include": lambda: {"include_characters": s, "categories": []},
                    "exclude": lambda: {"exclude_characters": s},
                    "both": lambda: {"include_characters": s, "exclude_characters": s[::3], "categories": []},
                    "with categories": lambda: {"include_characters": s, "categories": ABBREVIATIONS[:20], "max_codepoint": 0x30000 +
                                                (not s.isascii()) * 0xD0000}}[place]()
            log.run(f"{place}: {name}", n, lambda: u.query(**more), tuple)


def names(log, u, sizes):
    """Many names, good and bad, in several kinds of iterable."""
    many = {
        "one name": lambda n: ["Lu"] * n,
        "all names": lambda n: [ABBREVIATIONS[i % 30] for i in range(n)],
        "classes": lambda n: ["LMNPSZC"[i % 7] for i in range(n)],
        # No two are the same object.
        "fresh names": lambda n: ["".join(ABBREVIATIONS[i * 7 % 30]) + "" if i % 2 else str(b"Nd"[:2], "ascii") for i in range(n)],
        "the last unknown": lambda n: ["Lu"] * (n - 1) + ["Xx"],
        "all unknown": lambda n: [f"X{i}" for i in range(n)],
    }
    for what, make in many.items():
        for kind in ("list", "tuple", "generator", "custom", "iterator"):
            for n in sizes:
                for place, f in {
                    "categories": lambda x: u.query(categories=x, max_codepoint=100),
                    "exclude_categories": lambda x: u.query(exclude_categories=x, max_codepoint=100),
                    "as_general_categories": lambda x: u.as_general_categories(x),
                }.items():
                    # A query takes no classes.
                    bad = "unknown" in what or (what == "classes" and place != "as_general_categories")
                    items = KINDS[kind](make(n))
                    log.run(f"{what} as a {kind} in {place}", n, lambda: f(items), ValueError if bad else tuple)


def long(log, u, sizes):
    """One name or version of many characters, and a window or text that is refused."""
    for n in sizes:
        for what, s in {"x": "x" * n, "blanks": " " * n + "Lu", "Lu": "Lu" * n, "wide": "\u4e00" * n}.items():
            log.run(f"a long name of {what} in query", n, lambda: u.query(categories=[s]), ValueError)
            log.run(f"a long name of {what} in as_general_categories", n, lambda: u.as_general_categories([s]), ValueError)
        for what, s in {"x": "x" * n, "digits": "1" * n, "dots": "." * n, "zeros": "16.0.0" + "0" * n, "blanks": " " * n + "16.0.0",
                        "parts": "16.0.0" + ".0" * n, "wide": "\u4e00" * n}.items():
            log.run(f"a long version of {what}", n, lambda: u.UnicodeVersion(s), ValueError)
        s = text("shuffled", n)
        log.run("a long text, then an unknown name", n, lambda: u.query(include_characters=s, categories=["Xx"]), ValueError)
        log.run("a long text, window reversed", n, lambda: u.query(exclude_characters=s, min_codepoint=9, max_codepoint=5), ValueError)
        log.run("a long text that ends in a surrogate", n, lambda: u.query(include_characters=s + "\ud800"), Exception)


def history(log, u, sizes):
    """The same small calls after more and more different ones."""
    versions = [u.UnicodeVersion(v) for v in VERSIONS]
    r = random.Random(7)
    done = 0
    for n in sizes:
        while done < n:
            done += 1
            x = r.randrange(0x10000)
            v = versions[done % 11]
            try:
                k = done % 8
                # Windows from one codepoint to thousands, and categories that reach into them or not.
                q = {}
                if r.random() < 0.7:
                    q = {"min_codepoint": x, "max_codepoint": x + r.choice([0, 1, 7, 50, 300, 300, 2000]), "version": v}
                elif r.random() < 0.5:
                    q = {"max_codepoint": x % 900}
                else:
                    q = {"categories": []}
                if r.random() < 0.5:
                    q["categories"] = r.sample(ABBREVIATIONS, r.choice([1, 1, 3]))
                if r.random() < 0.3:
                    q["exclude_categories"] = r.sample(ABBREVIATIONS, 2)
                if k == 0:
                    u.query(**q)
                elif k == 1:
                    u.query(**q, include_characters=chr(0x10000 + x) + chr(0x20000 + done))
                elif k == 2:
                    u.query(**q, exclude_characters=chr(0x10000 + x) + chr(x % 0xD000))
                elif k == 3:
                    u.as_general_categories([r.choice(ABBREVIATIONS), r.choice("LMNPSZC")], v)
                elif k == 4:
                    u.as_general_categories([f"Q{done}"])
                elif k == 5:
                    u.UnicodeVersion(f"{done}.0.0")
                elif k == 6:
                    u.query(min_codepoint=x + 1, max_codepoint=x)
                else:
                    u.query(categories=[f"Y{done}"])
                    u.categories(v)
            except ValueError:
                pass
        # Of the same shape each time, but never the same: what is remembered of the last time does not help.
        k = sizes.index(n)
        t, wrong, version, old = chr(0xE100 + k) + chr(0xE200 + 2 * k), f"Q{k}", f"15.2.{k}", versions[0]
        for name, f in {
            "a query by category": lambda: u.query(categories=["Lu", "Nd"], max_codepoint=0x10FFFF - k),
            "a small query by category": lambda: u.query(categories=["Zs", "Zl"], max_codepoint=300 + k),
            "a query by characters": lambda: u.query(categories=[], include_characters=t),
            "a query with excluded characters": lambda: u.query(exclude_characters=t, min_codepoint=0xE080 + k, max_codepoint=0xE300 + k),
            "a query of an old version": lambda: u.query(exclude_categories=["L"], version=old, max_codepoint=500 + k),
            "a query of nothing": lambda: u.query(categories=["Cs"], min_codepoint=0x3000 + k, max_codepoint=0x3010 + k),
            "categories()": u.categories,
            "categories(version)": lambda: u.categories(versions[3]),
            "as_general_categories": lambda: u.as_general_categories(["N", ["Zs", "Zp", "Zl", "Cc", "Cs"][k % 5]]),
            "an unknown name in a query": lambda: u.query(categories=["Y" + wrong]),
            "an unknown name": lambda: u.as_general_categories([wrong]),
            "a version from text": lambda: u.UnicodeVersion("15.1.0"),
            "an unknown version": lambda: u.UnicodeVersion(version),
            "hash and equality": lambda: hash(versions[2]) + (versions[2] == versions[4]),
            "latest": lambda: str(u.UnicodeVersion.latest()),
            "a reversed window": lambda: u.query(min_codepoint=9 + k, max_codepoint=5 + k),
        }.items():
            # The first call may do what later ones need not.
            for _ in range(2):
                try:
                    f()
                except ValueError:
                    pass
            log.run(name, n, lambda: [attempt(f) for _ in range(4)])


def attempt(f):
    try:
        return f()
    except ValueError:
        return None


def main():
    p = argparse.ArgumentParser()
    for x in ("library", "labels", "scenario", "sizes"):
        p.add_argument("--" + x)
    args = p.parse_args()
    u = pymon.load()
    gc.disable()
    log = Log(args.library, args.labels)
    sizes = [int(x) for x in args.sizes.split(",")]
    # What the first calls set up is not counted.
    u.query(categories=["Lu"], include_characters="a", exclude_characters="b")
    u.query(version=u.UnicodeVersion("9.0.0"))
    if args.scenario in PLACES:
        strings(log, u, args.scenario, sizes)
    else:
        {"names": names, "long": long, "history": history}[args.scenario](log, u, sizes)
    log.labels.close()
    sys.exit(0)


if __name__ == "__main__":
    main()
