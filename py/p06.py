"""P06: calls keep nothing alive beyond their results."""
import ctypes
import collections
import gc
import sys
import threading
import weakref

import pymon
from pymon import ABBREVIATIONS, KINDS, MAJORS, MAX, VERSIONS, Int, Str, shorten

BATCHES = 6
# By how much each batch must grow: what the interpreter keeps once per batch, however long, is less.
FEW_BLOCKS, FEW_BYTES = 6, 100


class Info(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Info

# Codepoints at the ends of ranges: one and two bytes, surrogates, planes.
EDGES = sorted({x for e in (0, 0x80, 0x100, 0x800, 0xD800, 0xE000, 0xFFFF, 0x10000, 0x20000, 0xE0000, 0x100000, MAX)
                for x in (e - 1, e, e + 1) if 0 <= x <= MAX})


def memory():
    """Live blocks of the interpreter and live bytes of malloc."""
    blocks = sys.getallocatedblocks()
    i = LIBC.mallinfo2()
    return blocks, i.uordblks + i.hblkhd


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


class Index:
    def __init__(self, value):
        self.value = value

    def __index__(self):
        if isinstance(self.value, tuple):
            raise self.value[0](self.value[1])
        return self.value


def raising(items, at, error, text):
    for i, x in enumerate(items):
        if i == at:
            raise error(text)
        yield x
    raise error(text)


class Bad:
    def __init__(self, error, text):
        self.error, self.text = error, text

    def __iter__(self):
        raise self.error(self.text)


class Maker:
    """Arguments that have not been used before."""

    def __init__(self, m, u):
        self.r, self.u, self.n = m.r, u, 0
        self.alive = {}

    def fresh(self):
        self.n += 1
        return self.n

    def known(self):
        # A new string object each time.
        return "".join(list(self.r.choice(ABBREVIATIONS)))

    def unknown(self):
        n = self.fresh()
        return self.r.choice([f"no category {n}", f"é{n}", f"\U0001f600{n}" * 3, f"{n}" * self.r.choice([1, 50, 400])])

    def hold(self, items):
        kind = self.r.choice([k for k in KINDS if k not in ("map", "filter")])
        try:
            return KINDS[kind](items)
        except TypeError:
            return list(items)

    def names(self, fault=False):
        r = self.r
        items = [self.known() for _ in range(r.choice([0, 1, 2, 5, 30]))]
        if r.random() < 0.2:
            items = [Str(x) for x in items]
        if not fault:
            return self.hold(items)
        kind = r.randrange(8)
        at = r.randint(0, len(items))
        if kind < 2:
            items.insert(at, self.unknown())
            return self.hold(items)
        if kind == 2:
            items.insert(at, r.choice([self.fresh() + 10 ** 6, None, 1.5, object(), [self.known()], f"{self.fresh()}".encode()]))
            return r.choice([list, tuple, iter])(items)
        if kind == 3:
            items.insert(at, f"{self.fresh()}\ud800")
            return self.hold(items)
        if kind == 4:
            return r.choice([f"Lu{self.fresh()}", self.fresh() + 10 ** 6, object(), Index(3), f"{self.fresh()}".encode()])
        error, text = r.choice([Boom, Halt, ValueError, TypeError, KeyError]), f"raised {self.fresh()}"
        # Made where they are raised: an exception that is held elsewhere holds the frames it passed through.
        return raising(items, at, error, text) if kind < 7 else Bad(error, text)

    def expandable(self, fault=False):
        if not fault and self.r.random() < 0.5:
            return self.hold([self.r.choice(MAJORS) for _ in range(self.r.randrange(6))])
        x = self.names(fault)
        return x

    def text(self, fault=False):
        r = self.r
        if fault:
            return r.choice([f"{self.fresh()}\ud800", self.fresh() + 10 ** 6, None, f"{self.fresh()}".encode(), object(), [self.known()]])
        n = r.choice([0, 1, 10, 200, 3000])
        base = r.choice([0, 0x100, 0x4E00, 0x1F300, 0x20000])
        s = "".join(chr(base + r.randrange(0x400)) for _ in range(n))
        return Str(s) if r.random() < 0.1 else s

    def number(self, low, fault=False):
        r = self.r
        if fault:
            return r.choice([MAX + 1 + r.randrange(10 ** 6), -1 - self.fresh(), 2 ** 40 + self.fresh(), f"{self.fresh()}", 1.5 + self.fresh(),
                             Index((Boom, f"raised {self.fresh()}")), Index("5"), Index(2 ** 70), object()])
        x = r.randrange(0, 1000) if low else r.randrange(1000, MAX + 1)
        return r.choice([x, x, Int(x), Index(x)])

    def version(self, fault=False):
        if fault:
            return self.r.choice([f"{self.fresh()}.0.0", self.fresh() + 10 ** 6, object(), [1]])
        return self.r.choice([None, *self.u.available_versions, self.u.UnicodeVersion(self.r.choice(VERSIONS))])

    def query(self, *faults):
        """Keyword arguments, with faults in the named ones."""
        r = self.r
        kw = {}
        makers = {"categories": self.names, "exclude_categories": self.names, "include_characters": self.text,
                  "exclude_characters": self.text, "min_codepoint": lambda f: self.number(True, f),
                  "max_codepoint": lambda f: self.number(False, f), "version": self.version}
        for k, make in makers.items():
            if k in faults:
                kw[k] = make(True)
            elif r.random() < 0.4:
                kw[k] = make(False)
        if "inverted" in faults:
            kw["min_codepoint"], kw["max_codepoint"] = 1000 + r.randrange(1000), r.randrange(1000)
        if "unknown" in faults:
            kw[f"unknown{self.fresh()}"] = object()
        if "latin" in faults:
            kw.update(max_codepoint=r.randrange(1000 if kw.get("min_codepoint") is not None else 0, 1001) % 256 + 0, min_codepoint=None)
            for k in ("include_characters", "exclude_characters"):
                if kw.get(k):
                    kw[k] = "".join(chr(r.randrange(256)) for _ in range(r.randrange(300)))
        items = list(kw.items())
        r.shuffle(items)
        return (), dict(items)

    def edge(self):
        """A codepoint, all magnitudes and the ends of ranges alike."""
        r = self.r
        return r.choice([r.choice(EDGES), r.randrange(MAX + 1), r.randrange(1 << r.randint(1, 20)), r.randrange(0xD800, 0xE000)])

    def related(self, kind):
        """Arguments that depend on each other."""
        r = self.r
        kw = {}
        if kind == "one codepoint":
            x = self.edge()
            low, high = x, r.choice([x, Int(x), Index(x)])
        else:
            low, high = sorted((self.edge(), self.edge()))
        if kind in ("one codepoint", "edges") or r.random() < 0.5:
            kw["min_codepoint"], kw["max_codepoint"] = low, high
        if kind == "same characters":
            s = self.text()
            kw["include_characters"], kw["exclude_characters"] = s, r.choice([s, s, s[::-1], s[:len(s) // 2], "".join(list(s))])
        if kind == "same names":
            names = r.choice([list, tuple, frozenset, dict.fromkeys])([self.known() for _ in range(r.randrange(1, 40))])
            kw["categories"], kw["exclude_categories"] = names, r.choice([names, list(names), list(names)[1:]])
        if kind == "bounds as characters":
            kw["min_codepoint"], kw["max_codepoint"] = low, high
            a, b = (chr(x) for x in (low, high))
            if any(0xD800 <= x <= 0xDFFF for x in (low, high)):
                a = b = "\ud7ff"
            kw[r.choice(["include_characters", "exclude_characters"])] = r.choice([a, b, a + b, b + a, a * 3])
        if kind == "all names":
            kw["categories"] = r.choice([list, tuple, set])(r.sample(ABBREVIATIONS, len(ABBREVIATIONS) - r.randrange(2)))
            if r.random() < 0.5:
                kw["exclude_categories"] = [x for x in ABBREVIATIONS if x not in kw["categories"]]
        if r.random() < 0.4:
            kw["version"] = self.version()
        items = list(kw.items())
        r.shuffle(items)
        return (), dict(items)


def kinds(mk, u):
    """Each kind of call: function, how to make arguments, whether it succeeds (None: either)."""
    V = u.UnicodeVersion
    out = {
        "query": (u.query, lambda: mk.query(), True),
        "query, Latin-1": (u.query, lambda: mk.query("latin"), True),
        "query, no arguments": (u.query, lambda: ((), {}), True),
        "query, one category": (u.query, lambda: ((), {"categories": [mk.known()]}), True),
        "query, one excluded": (u.query, lambda: ((), {"exclude_categories": (mk.known(),)}), True),
        "query, characters": (u.query, lambda: ((), {"include_characters": mk.text(), "exclude_characters": mk.text(), "categories": ()}), True),
        "query, empty result": (u.query, lambda: ((), {"categories": []}), True),
        "query, inverted bounds": (u.query, lambda: mk.query("inverted"), False),
        "query, unknown keyword": (u.query, lambda: mk.query("unknown"), False),
        "query, positional": (u.query, lambda: (([mk.known()],), {}), False),
        "categories": (u.categories, lambda: ((mk.version(),), {}), True),
        "categories, keyword": (u.categories, lambda: ((), {"version": mk.version()}), True),
        "categories, bad": (u.categories, lambda: ((mk.version(True),), {}), False),
        "categories, too many": (u.categories, lambda: ((mk.version(), object()), {}), False),
        "as_general_categories": (u.as_general_categories, lambda: ((mk.expandable(), mk.version()), {}), True),
        "as_general_categories, keywords": (u.as_general_categories, lambda: ((), {"version": mk.version(), "categories": mk.expandable()}), True),
        "as_general_categories, bad names": (u.as_general_categories, lambda: ((mk.expandable(True), mk.version()), {}), False),
        "as_general_categories, bad version": (u.as_general_categories, lambda: ((mk.expandable(), mk.version(True)), {}), False),
        "as_general_categories, both": (u.as_general_categories, lambda: ((), {"categories": mk.expandable(True), "version": mk.version(True)}), False),
        "as_general_categories, none": (u.as_general_categories, lambda: ((), {"version": mk.version()}), False),
        "as_general_categories, twice": (u.as_general_categories, lambda: ((mk.expandable(),), {"categories": mk.expandable()}), False),
        "version": (V, lambda: (("".join(list(mk.r.choice(VERSIONS))),), {}), True),
        "version, keyword": (V, lambda: ((), {"value": Str(mk.r.choice(VERSIONS))}), True),
        "version, unknown": (V, lambda: ((mk.unknown(),), {}), False),
        "version, bad": (V, lambda: ((mk.r.choice([mk.fresh() + 10 ** 6, f"{mk.fresh()}\ud800", None, b"16.0.0", object(), ["16.0.0"]]),), {}), False),
        "version, no argument": (V, lambda: ((), {}), False),
        "latest": (V.latest, lambda: ((), {}), True),
        "latest, argument": (V.latest, lambda: ((object(),), {}), False),
        "str of a version": (str, lambda: ((mk.r.choice(u.available_versions),), {}), True),
        "repr of a version": (repr, lambda: ((mk.r.choice(u.available_versions),), {}), True),
        "hash of a version": (hash, lambda: ((V(mk.r.choice(VERSIONS)),), {}), True),
        "versions compared": (lambda a, b: (a == b, a != b), lambda: ((V(mk.r.choice(VERSIONS)), mk.r.choice(
            [V(mk.r.choice(VERSIONS)), object(), mk.fresh() + 10 ** 6, f"{mk.fresh()}", None])), {}), True),
        "versions ordered": (lambda a, b: a < b, lambda: ((V(mk.r.choice(VERSIONS)), V(mk.r.choice(VERSIONS))), {}), None),
        "version attribute set": (lambda v, x: setattr(v, "value", x), lambda: ((V(mk.r.choice(VERSIONS)), object()), {}), False),
        "version attribute read": (lambda v: getattr(v, "missing", None), lambda: ((V(mk.r.choice(VERSIONS)),), {}), True),
        "version as a key": (lambda d, v: d[v], lambda: (({v: object() for v in u.available_versions}, V(mk.r.choice(VERSIONS))), {}), True),
        "version names": (lambda: [getattr(V, "V" + v.replace(".", "_")) for v in VERSIONS], lambda: ((), {}), True),
    }
    for k in ("categories", "exclude_categories", "include_characters", "exclude_characters", "min_codepoint", "max_codepoint", "version"):
        out[f"query, bad {k}"] = (u.query, lambda k=k: mk.query(k), False)
    for k in ("one codepoint", "edges", "same characters", "same names", "bounds as characters", "all names"):
        out[f"query, {k}"] = (u.query, lambda k=k: mk.related(k), True)
    pairs = [("categories", "exclude_categories"), ("categories", "inverted"), ("exclude_categories", "version"),
             ("include_characters", "exclude_characters"), ("min_codepoint", "categories"), ("unknown", "categories")]
    for a in pairs:
        out[f"query, bad {' and '.join(a)}"] = (u.query, lambda a=a: mk.query(*a), False)
    return out


def large(mk, u):
    """The same with arguments of tens of thousands of characters or names."""
    r = mk.r

    def text():
        base = r.choice([0, 0x100, 0x4E00, 0x20000])
        s = f"{mk.fresh()}" + "".join(chr(base + r.randrange(0x3000)) for _ in range(r.choice([9000, 40_000])))
        return Str(s) if r.random() < 0.2 else s

    def names(bad=None):
        items = [mk.known() for _ in range(r.choice([3000, 9000]))]
        if bad is not None:
            items.insert(len(items) - r.randrange(900), bad)
        return r.choice([list, tuple, iter, collections.deque])(items)

    def long_name():
        return f"{mk.fresh()}" * 12_000
    return {
        "long included characters": (u.query, lambda: ((), {"include_characters": text(), "categories": []}), True),
        "long excluded characters": (u.query, lambda: ((), {"exclude_characters": text()}), True),
        "long characters, bad bound": (u.query, lambda: ((), {"include_characters": text(), "exclude_characters": text(), "min_codepoint": MAX + 9}), False),
        "long characters, bad category": (u.query, lambda: ((), {"include_characters": text(), "categories": [long_name()]}), False),
        "long text with a surrogate": (u.query, lambda: ((), {"include_characters": text(), "exclude_characters": text() + "\ud800"}), False),
        "long names": (u.query, lambda: ((), {"categories": names(), "exclude_categories": names()}), True),
        "long names, one bad": (u.query, lambda: ((), {"categories": names(), "exclude_categories": names(f"{mk.fresh()}")}), False),
        "long expansion": (u.as_general_categories, lambda: ((names(),), {}), True),
        "long expansion, one bad": (u.as_general_categories, lambda: ((names(long_name()),), {}), False),
        "long version": (u.UnicodeVersion, lambda: ((long_name(),), {}), False),
    }


def call(f, args, kw):
    try:
        f(*args, **kw)
    except (Exception, Halt):  # noqa: BLE001
        return False
    return True


def watched(x, out, depth=2):
    """The objects a call might hold on to: the arguments and what they hold."""
    if depth and isinstance(x, (list, tuple, set, frozenset, dict)):
        for y in x:
            watched(y, out, depth - 1)
    if depth and isinstance(x, dict):
        for y in x.values():
            watched(y, out, depth - 1)
    out.append(x)


def references(m, name, f, make, good, amount):
    """Counts of the arguments before and after each call."""
    for i in range(amount):
        args, kw = make()
        objects = []
        watched(args, objects)
        watched(kw, objects)
        # Iterators are advanced by the call, so what they give out is let go by themselves.
        held = [o for o in objects if o is not args and o is not kw]
        refs = []
        for o in held:
            try:
                refs.append(weakref.ref(o))
            except TypeError:
                pass
        objects = o = None  # noqa: F841
        what = ascii((args, kw))
        before = list(map(sys.getrefcount, held))
        ok = call(f, args, kw)
        after = list(map(sys.getrefcount, held))
        m.check(good is None or ok == good, lambda: f"{name}: {what[:900]} {'succeeded' if ok else 'failed'}")
        for b, a, o in zip(before, after, held):
            # Immortal objects have no count.
            if a > b and b < 1 << 28:
                m.fail(f"{name}: {what[:900]} left {a - b} more references to {shorten(o)} ({b} before)")
            if a < b and b < 1 << 28 and o is not None:
                m.fail(f"{name}: {what[:900]} gave up {b - a} references to {shorten(o)} it does not own ({b} before)")
        m.count("objects counted", len(held))
        held = args = kw = o = None  # noqa: F841
        del before, after
        dead = [x() for x in refs if x() is not None]
        lasting = (type, weakref.ref)
        dead = [x for x in dead if not isinstance(x, lasting) and type(x).__name__ != "UnicodeVersion"]
        m.check(not dead, lambda: f"{name}: {what[:900]} keeps {shorten(dead)} alive")
        m.count("weak references dead", len(refs))
        m.seen((name, what))
        m.sample(lambda: f"{name}: {what}")


def batch(f, make, n):
    """Growth over n calls, arguments included, and what only the collector could free.

    Collecting empties the interpreter's free lists, which count as live.
    """
    gc.collect()
    start = memory()
    for _ in range(n):
        a = make()
        call(f, *a)
    a = None  # noqa: F841
    cycles = gc.collect()
    end = memory()
    return end[0] - start[0] - OWN[0], end[1] - start[1] - OWN[1], cycles


# What measuring itself leaves.
OWN = (0, 0)


def grows(got, few):
    return sum(x >= few for x in got) >= BATCHES - 1


def growth(m, name, f, make, amount):
    """Whether live memory grows batch after batch."""
    batch(f, make, amount // 3)
    gc.collect()
    units = ((0, "interpreter blocks", FEW_BLOCKS), (1, "bytes of native memory", FEW_BYTES), (2, "cycles", FEW_BLOCKS))
    for attempt in range(3):
        seen = [batch(f, make, amount) for _ in range(BATCHES)]
        m.evaluations += BATCHES * amount
        m.count("batches measured", BATCHES)
        for unit, label, few in units:
            got = [s[unit] for s in seen]
            if grows(got, few) and attempt == 2:
                m.fail(f"{name}: each batch of {amount} calls leaves more {label} live: {got}")
        if not any(grows([s[unit] for s in seen], few) for unit, _, few in units):
            break
    m.classes["most blocks left by a kind"] = max(m.classes.get("most blocks left by a kind", 0), sum(s[0] for s in seen))
    m.classes["most native bytes left by a kind"] = max(m.classes.get("most native bytes left by a kind", 0), sum(s[1] for s in seen))


def fresh(m, u, mk, n):
    """Results belong to the caller; only the category lists are kept."""
    for _ in range(n):
        args, kw = mk.query()
        kw = {k: (list(v) if k.endswith("categories") else v) for k, v in kw.items()}
        a = u.query(**kw)
        b = u.query(**kw)
        m.check(a == b, lambda: f"query({shorten(kw)}) differs from itself: {shorten(a)} {shorten(b)}")
        m.check(a is not b or a == (), lambda: f"query({shorten(kw)}) returned one object twice")
        for x in (a, b):
            m.check(x == () or sys.getrefcount(x) == 4, lambda: f"something else holds the result of query({shorten(kw)}): {sys.getrefcount(x) - 4}")
            for y in x:
                m.check(sys.getrefcount(y) == 3, lambda: f"something else holds a pair of query({shorten(kw)})")
        names = list(mk.expandable())
        v = mk.version()
        a = u.as_general_categories(names, v)
        b = u.as_general_categories(names, v)
        m.check(a == b and (a is not b or a == ()), lambda: f"as_general_categories({names}) returned one object twice")
        m.check(a == () or (sys.getrefcount(a) == 2 and sys.getrefcount(b) == 2), lambda: f"something else holds the result of as_general_categories({names})")
        c = u.categories(v)
        d = u.categories(v)
        m.check(c is d, "categories() is not one object per version")
        m.count("results owned by the caller", 4)
        m.seen(("fresh", names, sorted(kw)))
    before = {v: sys.getrefcount(u.categories(v)) for v in u.available_versions}
    held = [u.categories(v) for _ in range(50) for v in u.available_versions]
    during = {v: sys.getrefcount(u.categories(v)) for v in u.available_versions}
    m.check(all(during[v] == before[v] + 50 for v in before), lambda: f"the cached lists count {before} then {during}")
    held = None  # noqa: F841
    after = {v: sys.getrefcount(u.categories(v)) for v in u.available_versions}
    m.check(after == before, lambda: f"the cached lists count {before} then {after}")
    m.count("cached lists counted", len(before))


def threads(m, table, n):
    """Calls in short-lived threads."""
    some = [m.r.choice(list(table)) for _ in range(6)]

    def work():
        for name in some:
            f, make, _ = table[name]
            for _ in range(5):
                call(f, *make())

    def run():
        t = threading.Thread(target=work)
        t.start()
        t.join()
    growth(m, f"in threads: {some}", run, lambda: ((), {}), n)


def body(m):
    u = pymon.load()
    mk = Maker(m, u)
    table = kinds(mk, u)
    for v in u.available_versions:
        u.categories(v)
    names = list(table)
    mine = [n for i, n in enumerate(names) if i % 8 == m.args.part % 8]
    amount = m.args.amount
    fresh(m, u, mk, amount // 5)
    for name in mine:
        references(m, name, *table[name], amount // 4)
    gc.collect()
    gc.disable()
    global OWN
    nothing = [batch(f, make, 0) for f, make in [(len, tuple)] * 5]
    OWN = nothing[-1][:2]
    for name in mine:
        f, make, _ = table[name]
        growth(m, name, f, make, amount // 2)
        m.count("kinds of call")

    big = large(mk, u)
    for i, name in enumerate(big):
        if i % 8 == m.args.part % 8:
            gc.enable()
            references(m, name, *big[name], max(amount // 60, 4))
            gc.disable()
            f, make, _ = big[name]
            growth(m, name, f, make, max(amount // 25, 8))
            m.count("kinds of call")

    def mixed():
        f, make, _ = table[m.r.choice(names)]
        a, kw = make()
        return (f, a, kw), {}
    growth(m, "all kinds mixed", lambda f, a, kw: f(*a, **kw), mixed, amount * 2)
    threads(m, table, max(amount // 15, 40))


pymon.run(body)
