"""P01: results of query against expectations computed by the harness model."""
import pymon
from pymon import KINDS, Int, Str, crc, shorten


def arguments(m, u, case):
    """The case as keyword arguments, written one of many ways."""
    r = m.r
    version, inc, exc, inc_chars, exc_chars, lo, hi, _ = case
    kw = {}

    def names(key, value):
        if value is None:
            if r.random() < 0.3:
                kw[key] = None
            return
        value = list(value)
        if r.random() < 0.5:
            r.shuffle(value)
        if r.random() < 0.3:
            value += r.choices(value, k=3) if value else []
        if r.random() < 0.2:
            value = [Str(x) for x in value]
        kind = r.choice(list(KINDS))
        m.count(f"categories as {kind}")
        kw[key] = KINDS[kind](value)

    def text(key, value):
        if value is None:
            if r.random() < 0.3:
                kw[key] = ""
        else:
            kw[key] = Str(value) if r.random() < 0.1 else value

    def number(key, value):
        if value is None:
            if r.random() < 0.3:
                kw[key] = None
        elif value < 2 and r.random() < 0.2:
            kw[key] = bool(value)
        else:
            kw[key] = Int(value) if r.random() < 0.1 else value

    names("categories", inc)
    names("exclude_categories", exc)
    text("include_characters", inc_chars)
    text("exclude_characters", exc_chars)
    number("min_codepoint", lo)
    number("max_codepoint", hi)
    way = r.randrange(4)
    if version == pymon.VERSIONS[-1] and way < 2:
        if way:
            kw["version"] = None
    else:
        kw["version"] = (
            u.UnicodeVersion(version) if way < 2 else getattr(u.UnicodeVersion, "V" + version.replace(".", "_"))
            if way == 2 else u.available_versions[pymon.VERSIONS.index(version)])
    items = list(kw.items())
    r.shuffle(items)
    return dict(items)


def check_case(m, u, i, case):
    kw = arguments(m, u, case)
    want = case[-1]

    def what():
        return f"case {i}, query {shorten(case[:-1])} with arguments {shorten(kw)}"
    try:
        got = u.query(**kw)
    except ValueError as e:
        m.check(want in ("range", "inverted"), lambda: f"{what()} raised {e!r}")
        m.seen(case[:-1])
        m.count("queries rejected")
        return
    except BaseException as e:  # noqa: BLE001
        m.fail(f"{what()} raised {type(e)}: {e}")
    m.check(want not in ("range", "inverted"), lambda: f"{what()} returned {shorten(got)} instead of raising ValueError")
    m.check(type(got) is tuple and all(type(x) is tuple and len(x) == 2 and type(x[0]) is int and type(x[1]) is int
                                       for x in got),
            lambda: f"{what()} did not return a tuple of pairs of ints: {shorten(got)}")
    if want and isinstance(want[0], int):
        same = len(got) == want[0] and crc(got) == want[1]
    else:
        same = got == tuple(map(tuple, want))
    m.check(same, lambda: f"{what()} returned {shorten(got)}, should be {shorten(want)} (a count and CRC when long)")
    m.seen(case[:-1])
    m.count("intervals returned", len(got))
    m.sample(lambda: f"{shorten(kw)} -> {len(got)} intervals")


LENGTHS = [2 ** x + d for x in range(6, 19) for d in (-1, 0, 1)] + [1000, 10_000, 100_000]


def canonical(points):
    """Canonical intervals of ascending points."""
    out = []
    for c in points:
        if out and out[-1][1] + 1 == c:
            out[-1][1] = c
        else:
            out.append([c, c])
    return tuple(map(tuple, out))


def huge(m, u, golden):
    """Arguments and results beyond every 16-bit count."""
    r = m.r
    valid = [c for c in range(pymon.MAX + 1) if not 0xD800 <= c <= 0xDFFF]
    for k in range(m.args.huge):
        v = r.choice(pymon.VERSIONS)
        version = u.UnicodeVersion(v)
        n = r.choice([33_000, 66_000, 140_000, 400_000])
        step = r.choice([1, 2, 3])
        top = r.choice([len(valid), len(valid), 0x10000 - 0x800, 0x180, 100])
        style = k % 4
        if style == 0:
            chars = [valid[i * step % top] for i in range(n)]
        elif style == 1:
            chars = [valid[i * step % top] for i in range(n)][::-1]
        else:
            chars = [valid[r.randrange(top)] for _ in range(n)]
        text = "".join(map(chr, chars))
        points = sorted(set(chars))
        got = u.query(categories=[], include_characters=text, version=version)
        m.check(got == canonical(points), lambda: f"including {n} characters (step {step}, below {top}, style {style}) in {v} gave {shorten(got)}")
        gone = set(points)
        want = canonical(c for c in range(pymon.MAX + 1) if c not in gone)
        got = u.query(exclude_characters=text, version=version)
        m.check(got == want, lambda: f"excluding {n} characters (step {step}, below {top}, style {style}) in {v} gave {shorten(got)}")
        # A result of a chosen length, single codepoints and a few long intervals.
        length = LENGTHS[(m.args.part + 4 * k) % len(LENGTHS)]
        start = r.choice([0x1_0000, 0xE000, 0x2_0001])
        points = list(range(start, start + 2 * length, 2))
        points += range(points[-1] + 1, points[-1] + r.choice([1, 1, 300]))
        want = canonical(points)
        m.check(len(want) == length, f"{len(want)} intervals were made for {length}")
        text = "".join(map(chr, points if k % 2 else reversed(points)))
        got = u.query(categories=[], include_characters=text, version=version)
        m.check(got == want, lambda: f"{length} intervals from {start:#x} in steps of two give {len(got)}: {shorten(got)}")
        m.count("results with a chosen number of intervals")
        few = r.sample(pymon.ABBREVIATIONS, r.randrange(1, 4))
        names = r.choices(few, k=n)
        late = r.choice(pymon.ABBREVIATIONS)
        names.append(late)
        kind = r.choice(["list", "tuple", "generator", "deque", "custom"])
        want = canonical(sorted(c for name in {*names} for a, b in golden.by_cat[v][name] for c in range(a, b + 1)))
        got = u.query(categories=KINDS[kind](names), version=version)
        m.check(got == want, lambda: f"query of {n} times {few} and then {late} in {v} (a {kind}) gave {shorten(got)}")
        got = u.query(categories=[late], exclude_categories=KINDS[kind](names), version=version)
        m.check(got == (), lambda: f"excluding {n} times {few} and then {late} in {v} (a {kind}) leaves {shorten(got)}")
        m.seen(("huge", k, n))
        m.count("queries with tens of thousands of characters or names", 4)


def body(m):
    u = pymon.load()
    if m.args.huge:
        huge(m, u, pymon.Golden())
        return
    for i, case in enumerate(pymon.cases(m.args.cases)):
        check_case(m, u, i, case)
    golden = pymon.Golden()
    # Every category of every version, alone and left out.
    for v in pymon.VERSIONS:
        version = u.UnicodeVersion(v)
        for c, want in golden.by_cat[v].items():
            got = u.query(categories=[c], version=version)
            m.check(list(got) == want, lambda: f"query(categories=[{c!r}], version={v}) is wrong: {shorten(got)}")
            out = u.query(exclude_categories=(c,), version=version)
            back = sorted([*got, *out])
            whole = all(a[1] + 1 == b[0] for a, b in zip(back, back[1:])) and back[0][0] == 0 and back[-1][1] == pymon.MAX
            m.check(whole, lambda: f"excluding {c} in {v} does not leave the rest: {shorten(out)}")
            m.seen((v, c))
        m.check(u.query(version=version) == ((0, pymon.MAX),), f"query() of {v} is not everything")
        m.check(u.query(categories=[], version=version) == (), f"an empty category list selects something in {v}")
        m.check(u.query(categories=pymon.ABBREVIATIONS, version=version) == ((0, pymon.MAX),), f"all categories of {v} are not everything")
        m.seen((v, "whole"))
    m.check(u.query() == ((0, pymon.MAX),), "query() is not everything")


pymon.run(body)
