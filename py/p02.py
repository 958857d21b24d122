"""P02: category lists and version values."""
import itertools

import pymon
from pymon import ABBREVIATIONS, MAJORS, VERSIONS, shorten


def strings(t):
    return type(t) is tuple and all(type(x) is str for x in t)


def versions(m, u):
    V = u.UnicodeVersion
    av = u.available_versions
    m.check(type(av) is tuple and [str(v) for v in av] == VERSIONS, lambda: f"available_versions is {shorten(av)}")
    names = sorted(n for n in dir(V) if n.startswith("V"))
    m.check(names == sorted("V" + s.replace(".", "_") for s in VERSIONS), lambda: f"UnicodeVersion has {names}")
    for i, s in enumerate(VERSIONS):
        made = [av[i], V(s), getattr(V, "V" + s.replace(".", "_")), V(value=s), V(str(av[i]))]
        for a, b in itertools.product(made, made):
            m.check(type(a) is V and a == b and not a != b and hash(a) == hash(b), lambda: f"values of {s} differ: {a!r} {b!r}")
            m.seen((s, "same"))
        for a in made:
            m.check(str(a) == s and f"{a}" == s and type(str(a)) is str, lambda: f"{s} prints as {a}")
            m.check(s in repr(a), lambda: f"the repr of {s} is {a!r}")
        for j, t in enumerate(VERSIONS):
            if i != j:
                m.check(made[1] != V(t) and not made[1] == V(t), lambda: f"{s} equals {t}")
                m.seen((s, t))
        for other in (s, i, None, 0, made[0].__class__, object(), float(i), (s,)):
            m.check(made[0] != other and not made[0] == other, lambda: f"{s} equals {other!r}")
            m.seen((s, repr(type(other))))
        m.check(av.index(V(s)) == i and len({*made}) == 1, lambda: f"{s} is not found where it is")
        m.count("version values")
    m.check(len({*av}) == len(VERSIONS), "versions coincide in a set")
    latest = V.latest()
    m.check(type(latest) is V and latest == av[-1] and str(latest) == VERSIONS[-1], lambda: f"latest() is {latest}")


def expansion(m, u, golden, names, version, ways=(0, 1, 2)):
    for way in ways:
        v = None if version is None else u.UnicodeVersion(version)
        name = version or VERSIONS[-1]
        want = golden.expand(names, name)
        what = lambda: f"as_general_categories({shorten(names)}, {version})"  # noqa: E731
        try:
            if way == 0:
                got = u.as_general_categories(list(names), v)
            elif way == 1:
                got = u.as_general_categories(categories=tuple(names), version=v)
            elif v is None:
                got = u.as_general_categories(names)
            else:
                got = u.as_general_categories(iter(names), version=v)
        except ValueError as e:
            m.check(type(want) is list, lambda: f"{what()} raised {e!r}")
            m.check(want[0] in str(e), lambda: f"{what()} raised {e!r}, which does not name {want[0]!r}")
            m.count("expansions rejected")
        else:
            m.check(strings(got) and got == want, lambda: f"{what()} gave {shorten(got)}, should be {shorten(want)}")
        m.seen((tuple(names), version))


def relative(m, names, v, every):
    """A list like the last: what is remembered of that one must not show."""
    r = m.r
    names = list(names)
    way = r.randrange(7)
    if way < 2:
        v = None if v is not None and r.random() < 0.7 else r.choice(VERSIONS)
    elif way == 2:
        r.shuffle(names)
    elif way == 3 and names:
        names.pop(r.randrange(len(names)))
    elif way == 4 and names:
        names[r.randrange(len(names))] = r.choice(every)
    elif way == 5:
        names.append(r.choice([*every, *names]))
    elif names:
        names = names[::-1]
    return names, v


def body(m):
    u = pymon.load()
    golden = pymon.Golden()
    versions(m, u)
    for rounds in range(3):
        for s in m.r.sample(VERSIONS, len(VERSIONS)):
            got = u.categories(u.UnicodeVersion(s))
            m.check(strings(got) and got == golden.order[s], lambda: f"categories({s}) is {shorten(got)}")
            got = u.categories(version=u.UnicodeVersion(s))
            m.check(got == golden.order[s], lambda: f"categories(version={s}) is {shorten(got)}")
            m.seen((s, "order"))
        for got in (u.categories(), u.categories(None), u.categories(version=None), u.categories(u.UnicodeVersion.latest())):
            m.check(got == golden.order[VERSIONS[-1]], lambda: f"categories() is {shorten(got)}")
    # What has no version named is of the latest.
    for c in ABBREVIATIONS:
        want = tuple(golden.by_cat[VERSIONS[-1]][c])
        m.check(u.query(categories=[c]) == want == u.query(categories=[c], version=None), lambda: f"query of {c} is not of the latest version")
        m.seen(("latest", c))
    every = ABBREVIATIONS + MAJORS
    for i, v in enumerate([*VERSIONS, None]):
        for n in every:
            expansion(m, u, golden, [n], v)
        expansion(m, u, golden, [], v)
        expansion(m, u, golden, every, v)
        if i % 4 == m.args.part % 4:
            for a, b in itertools.product(every, every):
                expansion(m, u, golden, [a, b], v)
    bad = ["", "l", "lu", "LU", " Lu", "Lu ", "Lu\n", "Letter", "LC", "Cased_Letter", "X", "Ln", "Xx", "\0", "Lu\0", "L&", "ＬＵ",
           "Uppercase_Letter", "Any", "0", "*", "\U0010ffff", "é"]
    for v in VERSIONS:
        for b in bad:
            expansion(m, u, golden, [b], v)
            expansion(m, u, golden, ["L", b, "Q"], v)
    names, v = [], None
    for _ in range(m.args.amount):
        if m.r.random() < 0.5:
            names, v = relative(m, names, v, every)
            expansion(m, u, golden, names, v, [m.r.randrange(3)])
            m.count("expansions like the one before")
            if m.r.random() < 0.3:
                got = u.categories(None if v is None else u.UnicodeVersion(v))
                m.check(got == golden.order[v or VERSIONS[-1]], lambda: f"after expansions, categories({v}) is {shorten(got)}")
            continue
        k = m.r.choice([0, 1, 2, 3, 5, 8, 30, 60])
        names = [m.r.choice(every) for _ in range(k)]
        if m.r.random() < 0.15:
            for _ in range(m.r.randrange(1, 3)):
                names.insert(m.r.randint(0, len(names)), m.r.choice(bad))
        v = m.r.choice([*VERSIONS, None])
        expansion(m, u, golden, names, v)
        m.sample(lambda: f"as_general_categories({shorten(names)}, {v})")
    for k in range(8):
        few = m.r.sample(every, m.r.randrange(1, 6))
        names = m.r.choices(few, k=m.r.choice([255, 256, 65_534, 65_535, 65_536, 140_000]))
        names.append(m.r.choice(bad if k % 4 == 3 else every))
        expansion(m, u, golden, names, m.r.choice([*VERSIONS, None]))
        m.count("expansions of tens of thousands of names", 3)


pymon.run(body)
