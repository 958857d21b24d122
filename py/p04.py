"""P04: the binding against Hypothesis' charmap and unicodedata."""
import sys
import unicodedata

import pymon
from pymon import ABBREVIATIONS, MAJORS, shorten


def body(m):
    u = pymon.load()
    r = m.r
    if unicodedata.unidata_version not in [str(v) for v in u.available_versions]:
        # Nothing is promised then; the sandbox' interpreter has a bundled version.
        m.fail(f"the version of this interpreter ({unicodedata.unidata_version}) is not bundled")
    version = u.UnicodeVersion(unicodedata.unidata_version)
    from hypothesis.errors import InvalidArgument
    from hypothesis.internal import charmap

    # The order charmap settles on once its cache file is there (see the repository's own tests).
    charmap.charmap()
    charmap._charmap = None
    charmap._categories = None
    table = charmap.charmap()
    m.check(u.categories(version) == charmap.categories(), lambda: f"categories() is {u.categories(version)}, charmap's {charmap.categories()}")
    whole = [None] * (sys.maxunicode + 1)
    for c in u.categories(version):
        got = u.query(categories=[c], version=version)
        m.check(got == tuple(map(tuple, table[c])), lambda: f"query of {c} differs from charmap's table")
        for lo, hi in got:
            whole[lo:hi + 1] = [c] * (hi + 1 - lo)
        m.seen(("table", c))
    for cp in range(sys.maxunicode + 1):
        if whole[cp] != unicodedata.category(chr(cp)):
            m.fail(f"U+{cp:04X} is {whole[cp]}, unicodedata says {unicodedata.category(chr(cp))}")
    m.count("codepoints compared with unicodedata", len(whole))

    edges = sorted({x for v in table.values() for lo, hi in v for x in (lo - 1, lo, hi, hi + 1) if 0 <= x <= sys.maxunicode})

    def point():
        k = r.randrange(5)
        if k == 0:
            return r.randrange(400)
        if k == 1:
            return r.choice([0, 1, 127, 128, 255, 256, 257, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, sys.maxunicode - 1, sys.maxunicode])
        if k == 2:
            return r.randrange(sys.maxunicode + 1)
        return r.choice(edges)

    def char(latin):
        cp = r.randrange(256) if latin else point()
        return chr(cp) if not 0xD800 <= cp <= 0xDFFF else "\ue000"

    def text(latin):
        n = r.choice([0, 0, 1, 2, 5, 20, 80])
        if n and r.random() < 0.2:
            a = ord(char(latin))
            return "".join(chr(min(a + i, 255 if latin else 0xD7FF if a <= 0xD7FF else sys.maxunicode)) for i in range(n))
        return "".join(char(latin) for _ in range(n))

    def names():
        k = r.randrange(6)
        if k == 0:
            return None
        if k == 1:
            return [r.choice(ABBREVIATIONS)]
        if k == 2:
            c = r.choice(MAJORS)
            return list(charmap.as_general_categories([c]))
        return r.sample(ABBREVIATIONS, r.choice([0, 1, 2, 3, 7, 15, 28, 29, 30]))

    for i in range(m.args.amount):
        latin = r.random() < 0.3
        kw = {}
        cats = names()
        if cats is not None or r.random() < 0.3:
            kw["categories"] = cats if cats is None else r.choice([list, tuple, set, frozenset, dict.fromkeys])(cats)
        lo, hi = (r.randrange(256), r.randrange(256)) if latin else (point(), point())
        if r.random() < 0.97:
            lo, hi = min(lo, hi), max(lo, hi)
        if r.random() < 0.7:
            kw["min_codepoint"] = lo
        elif r.random() < 0.2:
            kw["min_codepoint"] = None
        if latin or r.random() < 0.7:
            kw["max_codepoint"] = hi
        elif r.random() < 0.2:
            kw["max_codepoint"] = None
        if r.random() < 0.5:
            kw["include_characters"] = text(latin)
        if r.random() < 0.5:
            kw["exclude_characters"] = text(latin)
        try:
            want = charmap.query(**kw).intervals
        except InvalidArgument:
            want = ValueError
        try:
            got = u.query(**kw, version=version)
        except ValueError:
            got = ValueError
        m.check(got == want, lambda: f"query({shorten(kw)}) is {shorten(got)}, charmap's {shorten(want)}")
        m.check(type(got) is type(want) and (got is ValueError or set(map(type, got)) <= {tuple}), lambda: f"query({shorten(kw)}) returned {type(got)}")
        m.seen(kw if not isinstance(kw.get("categories"), (set, frozenset)) else (sorted(kw["categories"]), lo, hi))
        m.count("queries rejected by both", got is ValueError)
        m.sample(lambda: f"query({shorten(kw)})")
        if len(charmap.limited_category_index_cache) > 3000:
            charmap.limited_category_index_cache.clear()

        cats = [r.choice(ABBREVIATIONS + MAJORS) for _ in range(r.choice([0, 1, 2, 4, 9, 40]))]
        if r.random() < 0.05:
            cats.insert(r.randint(0, len(cats)), r.choice(["", "lu", "Xx", "LL", " L", "Q", "é"]))
        cats = r.choice([list, tuple, set, frozenset])(cats)
        try:
            want = charmap.as_general_categories(cats)
        except InvalidArgument:
            want = ValueError
        try:
            got = u.as_general_categories(cats, version)
        except ValueError:
            got = ValueError
        m.check(got == want, lambda: f"as_general_categories({cats}) is {shorten(got)}, charmap's {shorten(want)}")
        m.count("expansions compared")


pymon.run(body)
