"""P03: bad arguments raise ordinary exceptions and change nothing."""
import itertools
import sys

import pymon
from faults import PARAMETERS, Fault, bad_names, bad_version, edited, observe, unknown
from pymon import ABBREVIATIONS, MAX, VERSIONS, crc, shorten


def good_arguments(r, u):
    kw = {}
    if r.random() < 0.4:
        kw["categories"] = r.sample(ABBREVIATIONS, r.randrange(4))
    if r.random() < 0.3:
        kw["exclude_categories"] = r.sample(ABBREVIATIONS, r.randrange(4))
    if r.random() < 0.3:
        kw["min_codepoint"] = r.randrange(200)
    if r.random() < 0.3:
        kw["max_codepoint"] = r.randrange(200, 1200)
    if r.random() < 0.3:
        kw["include_characters"] = "abcé\u0300"
    if r.random() < 0.3:
        kw["version"] = r.choice(u.available_versions)
    return kw


def good_cases(m, u):
    out = []
    for version, inc, exc, inc_chars, exc_chars, lo, hi, want in pymon.cases(m.args.cases):
        if isinstance(want, str):
            continue
        kw = {"version": u.UnicodeVersion(version)}
        for k, v in (("categories", inc), ("exclude_categories", exc), ("include_characters", inc_chars),
                     ("exclude_characters", exc_chars), ("min_codepoint", lo), ("max_codepoint", hi)):
            if v is not None:
                kw[k] = v
        out.append((kw, want))
    return out


def good(m, u, golden, pool):
    kw, want = m.r.choice(pool)
    got = u.query(**kw)
    same = (len(got) == want[0] and crc(got) == want[1]) if want and isinstance(want[0], int) else got == tuple(map(tuple, want))
    m.check(same, lambda: f"after bad calls, query({shorten(kw)}) returned {shorten(got)}, should be {shorten(want)}")
    v = m.r.choice(VERSIONS)
    got = u.categories(u.UnicodeVersion(v))
    m.check(got == golden.order[v], lambda: f"after bad calls, categories({v}) returned {shorten(got)}")
    names = m.r.choices(ABBREVIATIONS + list("LMNPSZC"), k=m.r.randrange(5))
    got = u.as_general_categories(names, u.UnicodeVersion(v))
    m.check(got == golden.expand(names, v), lambda: f"after bad calls, as_general_categories({names}, {v}) returned {shorten(got)}")
    m.count("good calls after bad ones", 3)


def fixed(m, u):
    """Calls that are wrong in shape."""
    V = u.UnicodeVersion
    latest = V.latest()
    T, E = (TypeError,), (ValueError,)
    calls = [
        ("query(['Lu'])", lambda: u.query(["Lu"]), T),
        ("query(None)", lambda: u.query(None), T),
        ("query(unknown=1)", lambda: u.query(unknown=1), T),
        ("query(Categories=[])", lambda: u.query(Categories=[]), T),
        ("query(include_categories=[])", lambda: u.query(include_categories=[]), T),
        ("query(**{'': 1})", lambda: u.query(**{"": 1}), T),
        ("query(**{surrogate: 1})", lambda: u.query(**{"\ud800": 1}), (TypeError, ValueError)),
        ("categories('15.0.0')", lambda: u.categories("15.0.0"), T),
        ("categories(5)", lambda: u.categories(5), T),
        ("categories(latest, latest)", lambda: u.categories(latest, latest), T),
        ("categories(latest, version=latest)", lambda: u.categories(latest, version=latest), T),
        ("categories(categories=latest)", lambda: u.categories(categories=latest), T),
        ("categories(V)", lambda: u.categories(V), T),
        ("as_general_categories()", lambda: u.as_general_categories(), T),
        ("as_general_categories(None)", lambda: u.as_general_categories(None), T),
        ("as_general_categories('Lu')", lambda: u.as_general_categories("Lu"), T),
        ("as_general_categories('')", lambda: u.as_general_categories(""), T),
        ("as_general_categories(['Lu'], '15.0.0')", lambda: u.as_general_categories(["Lu"], "15.0.0"), T),
        ("as_general_categories(['Lu'], latest, 1)", lambda: u.as_general_categories(["Lu"], latest, 1), T),
        ("as_general_categories(version=latest)", lambda: u.as_general_categories(version=latest), T),
        ("as_general_categories(['Lu'], categories=[])", lambda: u.as_general_categories(["Lu"], categories=[]), T),
        ("UnicodeVersion()", lambda: V(), T),
        ("UnicodeVersion(15)", lambda: V(15), T),
        ("UnicodeVersion(None)", lambda: V(None), T),
        ("UnicodeVersion(b'15.0.0')", lambda: V(b"15.0.0"), T),
        ("UnicodeVersion('15.0.0', 1)", lambda: V("15.0.0", 1), T),
        ("UnicodeVersion(version='15.0.0')", lambda: V(version="15.0.0"), T),
        ("UnicodeVersion(latest)", lambda: V(latest), T),
        ("UnicodeVersion(surrogate)", lambda: V("\ud800"), E),
        ("UnicodeVersion.latest(1)", lambda: V.latest(1), T),
        ("a subclass of UnicodeVersion", lambda: type("S", (V,), {}), T),
        ("setting an attribute of a version", lambda: setattr(latest, "x", 1), (AttributeError, TypeError)),
        ("setting V9_0_0 of a version", lambda: setattr(latest, "V9_0_0", 1), (AttributeError, TypeError)),
        ("ordering versions", lambda: latest < V("9.0.0"), T),
        ("indexing a version", lambda: latest[0], T),
        ("calling a version", lambda: latest(), T),
        ("changing a result", lambda: u.query().__setitem__(0, 1), (AttributeError, TypeError)),
        ("changing categories()", lambda: u.categories().__setitem__(0, 1), (AttributeError, TypeError)),
    ]
    # Arguments too many, of any value, the values for absent ones before all.
    parameters = {
        "query": (u.query, (), ["categories", "exclude_categories", "min_codepoint", "max_codepoint", "include_characters",
                                "exclude_characters", "version"]),
        "categories": (u.categories, (latest,), ["version"]),
        "as_general_categories": (u.as_general_categories, (["Lu"], latest), ["categories", "version"]),
        "UnicodeVersion": (V, ("15.0.0",), []),
        "UnicodeVersion.latest": (V.latest, (), []),
    }
    absent = [None, "", [], (), {}, 0, False, latest, ..., "Lu", ["Lu"], b"", "15.0.0", 65]
    everywhere = sorted({"unknown", "self", "cls", "args", "kwargs", "options", "py", "names", "value", "raw", "include", "exclude",
                         "include_categories", "codepoint", "min", "max", "_", "__class__", "return", "characters", "unicode_version",
                         *(x for _, _, known in parameters.values() for x in known)})
    for name, (f, full, known) in parameters.items():
        spellings = {y for x in [*known, "value"] for y in (x.upper(), x.title(), x + " ", " " + x, x + "\0", x[:-1], x + "s", "_" + x, x + "_",
                                                          x.replace("_", "-"), x.replace("_", ""), x[:1].upper() + x[1:])}
        spellings |= {edited(m.r, m.r.choice([*known, "value"])) for _ in range(20)} | {unknown(m.r) for _ in range(20)}
        for word in sorted({*everywhere, *spellings} - set(known)):
            for x in m.r.sample(absent, 3) + [None]:
                # Given well otherwise, partly or not at all.
                given = {k: v for k, v in {"version": latest}.items() if k in known and m.r.random() < 0.3}
                front = full[:1] if given else full[:m.r.choice([1, len(full)])] if full else ()
                if name == "categories" and given:
                    front = ()
                calls.append((f"{name}(*{shorten(front)}, {shorten(word)}={shorten(x)}, **{shorten(given)})",
                              lambda f=f, front=front, word=word, x=x, given=given: f(*front, **{word: x}, **given), T))
        for x in absent:
            for n in (1, 2, 3, 20):
                calls.append((f"{name}(*{shorten(full)}, *[{shorten(x)}] * {n})", lambda f=f, full=full, x=x, n=n: f(*full, *[x] * n), T))
        for word, x in zip(known, full if name != "categories" else [latest]):
            calls.append((f"{name}(*{shorten(full)}, {word}=...)", lambda f=f, full=full, word=word, x=x: f(*full, **{word: x}), T))
    for label, call, types in calls:
        observe(m, lambda: label, call, [Fault(label, None, types)])
        m.seen(label)
    bad = ["", "15", "15.0", "15.0.0.0", " 15.0.0", "15.0.0 ", "15.0.0\n", "v15.0.0", "15.0.1", "8.0.0", "18.0.0", "015.0.0", "15,0,0",
           "١٥.0.0", "latest", "V15_0_0", "15_0_0", "\0", "15.0.0\0", "-1.0.0", "9.0.00", "x" * 9000, "10.0.0-rc", "+9.0.0"]
    bad += [edited(m.r, m.r.choice(VERSIONS)) if k % 3 else unknown(m.r) for k in range(300)]
    for b in bad + [f"{x}.{y}.{z}" for x, y, z in itertools.product(range(6, 20), range(3), range(3))]:
        if b not in VERSIONS:
            observe(m, lambda: f"UnicodeVersion({shorten(b)})", lambda: V(b), [Fault("unknown version", b, E, b)])
            m.seen(b)


def body(m):
    u = pymon.load()
    golden = pymon.Golden()
    r = m.r
    pool = good_cases(m, u)
    fixed(m, u)
    for i in range(m.args.amount):
        which = r.random()
        faults = []
        if which < 0.65:
            kw = good_arguments(r, u)
            n = 1 if r.random() < 0.7 else r.randrange(2, 4)
            for p in r.sample(list(PARAMETERS), n):
                f = PARAMETERS[p](r)
                if f.label == "unknown category" and p == "exclude_categories":
                    f.label += " (excluded)"
                faults.append(f)
                kw[p] = f.value
            if len(faults) == 1 and faults[0].label == "bound out of range":
                pass
            what = lambda: f"query({shorten(kw)})"  # noqa: E731
            call = lambda: u.query(**kw)  # noqa: E731
        elif which < 0.75:
            lo = r.randrange(1, MAX + 1)
            hi = r.randrange(lo)
            faults.append(Fault("inverted bounds", None, (ValueError,)))
            what = lambda: f"query(min_codepoint={lo}, max_codepoint={hi})"  # noqa: E731
            call = lambda: u.query(min_codepoint=lo, max_codepoint=hi)  # noqa: E731
        elif which < 0.95:
            f = bad_names(r, True)
            faults.append(f)
            v = r.choice([None, *u.available_versions])
            if r.random() < 0.15:
                faults.append(bad_version(r))
                v = faults[-1].value
            what = lambda: f"as_general_categories({shorten(f.value)}, {v!r})"  # noqa: E731
            call = lambda: u.as_general_categories(f.value, v)  # noqa: E731
        else:
            f = bad_version(r)
            faults.append(f)
            what = lambda: f"categories({f.value!r})"  # noqa: E731
            call = lambda: u.categories(f.value)  # noqa: E731
        observe(m, lambda: f"{what()} with {[f.label for f in faults]}", call, faults)
        m.seen((i // 50, [f.label for f in faults], shorten(what())))
        m.count("calls with several faults", len(faults) > 1)
        for f in faults:
            m.count(f.label)
        m.sample(lambda: f"{what()} with {[f.label for f in faults]}")
        if i % 3 == 0:
            good(m, u, golden, pool)
    # A call inside the reading of another's argument.
    for i in range(m.args.amount // 20):
        kw, want = r.choice(pool)

        def reader(depth=0):
            for c in ("Lu", "Nd"):
                good(m, u, golden, pool)
                if depth < 3:
                    u.query(categories=reader(depth + 1))
                    try:
                        u.query(categories=["Lu"], min_codepoint=9, max_codepoint=3)
                    except ValueError:
                        pass
                yield c
        v = u.UnicodeVersion(r.choice(VERSIONS))
        a = u.query(categories=reader(), version=v)
        b = u.query(categories=["Nd", "Lu"], version=v)
        m.check(a == b, "a call made while reading an argument changed the result of the outer call")
        m.seen(("nested", i))
        m.count("nested calls")


sys.setrecursionlimit(2000)
pymon.run(body)
