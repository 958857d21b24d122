"""Bad arguments, and what should become of calls with them."""
import builtins
import collections
import decimal
import enum
import fractions
import math

from pymon import ABBREVIATIONS, KINDS, MAX, VERSIONS, shorten


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


ODD = ["", "l", "lu", "LU", " Lu", "Lu ", "Lu\n", "Letter", "LC", "X", "Xx", "\0", "Lu\0", "L&", "ＬＵ", "Any", "é", "\U0010ffff",
       "Uppercase_Letter", "x" * 5000, "%s", "{}", "\u202e", "Cn,Lu", "{0!r}"]
NOT_TEXT = [5, None, b"Lu", 1.5, object(), ["Lu"], ("Lu",), True, bytearray(b"Lu"), int, Ellipsis]
SURROGATES = ["\ud800", "a\udfffb", "\udc80", "Lu\ud83d"]
NOT_INT = ["5", 5.0, b"5", [], object(), 1j, int, "", ..., {}, float("nan")]
TOO_BIG = [-1, 2 ** 32, 2 ** 64, -(2 ** 31), -(2 ** 200), 2 ** 200, 2 ** 63 - 1, -(2 ** 63)]
OUT_OF_RANGE = [MAX + 1, 2 ** 32 - 1, 2 ** 31, 2 ** 31 - 1, 0x110001, 0x200000]
NOT_VERSION = ["15.0.0", 15, b"15.0.0", object(), (15, 0, 0), 0, "", False, 15.0, []]
NOT_ITERABLE = [5, object(), 1.5, True, len, ..., lambda: 0]
STRINGS = ["Lu", "L", "", "LuLl", "Cn"]


class Says:
    """Reads like text, is none."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __format__(self, spec):
        return self.text

    def __len__(self):
        return len(self.text)

    def __iter__(self):
        return iter(self.text)

    def __hash__(self):
        return hash(self.text)

    def __eq__(self, other):
        return self.text == other

    def __fspath__(self):
        return self.text

    def encode(self, *_):
        return self.text.encode()


class Sized:
    """Converts to numbers, is no integer."""

    def __init__(self, n):
        self.n = n

    def __int__(self):
        return self.n

    def __float__(self):
        return float(self.n)

    def __trunc__(self):
        return self.n


def no_text(r, text):
    """What holds a text, but is none."""
    raw = text.encode("utf-8")
    return r.choice([raw, bytearray(raw), memoryview(raw), [text], (text,), {text}, {text: 1}, Says(text), collections.UserString(text),
                     enum.Enum("E", {"X": text}).X, len(text), float(len(text)), text == "", lambda: text, iter(text)])


def no_int(r, n):
    """What holds a number, but is no integer."""
    return r.choice([float(n), n + 0.5, str(n), hex(n), str(n).encode(), complex(n), decimal.Decimal(n), fractions.Fraction(n), [n], (n,),
                     {n}, Sized(n), math.nan, math.inf, -math.inf, n.to_bytes(8, "little"), chr(n % 0xD800), range(n, n + 1),
                     enum.Enum("E", {"X": n}).X, type("Int", (), {"real": n, "numerator": n})()])


def edited(r, text):
    """A text that is nearly another."""
    alphabet = "\0 \t\n.,-_+0159abLuNCsé\u0301\u200b\ufeff\uff11"
    out = list(text)
    for _ in range(r.randrange(1, 3)):
        k = r.randrange(4)
        i = r.randrange(len(out) + 1)
        if k == 0 or not out:
            out.insert(i, r.choice(alphabet))
        elif k == 1:
            del out[min(i, len(out) - 1)]
        elif k == 2:
            out[min(i, len(out) - 1)] = r.choice(alphabet)
        else:
            out = [c.swapcase() for c in out] if r.random() < 0.5 else out * r.choice([2, 3])
    return "".join(out)


def unknown(r):
    """Any text."""
    n = r.choice([r.randrange(9), r.randrange(300), r.choice([31, 32, 63, 64, 100, 127, 128, 255, 256, 1000, 4096])])
    return "".join(chr(r.choice([r.randrange(128), r.randrange(0xD800), r.randrange(0xE000, MAX + 1)])) for _ in range(n))


class Fault:
    """One bad argument: what may be raised, and what the message must hold."""

    def __init__(self, label, value, types, names=None, exact=None):
        self.label, self.value, self.types, self.names, self.exact = label, value, types, names, exact


def raising(r, error, good):
    """Something whose reading raises `error` somewhere."""
    k = r.randrange(len(good) + 1)

    def gen():
        for i, x in enumerate(good):
            if i == k:
                raise error
            yield x
        raise error

    class Iter:
        def __iter__(self):
            raise error

    class Next:
        def __init__(self):
            self.items = iter(good[:k])

        def __iter__(self):
            return self

        def __next__(self):
            for x in self.items:
                return x
            raise error

    class Item:
        def __getitem__(self, i):
            if i < k:
                return good[i]
            raise error
    choices = [gen, Iter, Next]
    if not isinstance(error, IndexError):
        choices.append(Item)
    return r.choice(choices)()


def bad_names(r, expand):
    good = [r.choice(ABBREVIATIONS) for _ in range(r.randrange(4))]
    if r.random() < 0.002:
        good = r.choices(good or ["Lu"], k=r.choice([300, 5000, 66_000, 132_000]))

    def wrap(bad):
        items = list(good)
        items.insert(r.randint(0, len(items)), bad)
        try:
            hash(bad)
            kinds = list(KINDS)
        except TypeError:
            kinds = ["list", "tuple", "generator", "custom", "deque"]
        kind = r.choice([k for k in kinds if k not in ("filter", "map", "set", "frozenset", "dict", "dict keys", "array of strings")])
        return KINDS[kind](items)
    kind = r.randrange(9)
    if kind == 0:
        pool = ODD if expand else ODD + list("LMNPSZC")
        x = r.random()
        bad = r.choice(pool) if x < 0.4 else edited(r, r.choice(ABBREVIATIONS + list("LMNPSZC"))) if x < 0.7 else unknown(r)
        if bad in ABBREVIATIONS or (expand and bad in "LMNPSZC" and bad):
            bad = "??"
        return Fault("unknown category", wrap(bad), (ValueError,), bad)
    if kind == 1:
        return Fault("name that is no text", wrap(r.choice(NOT_TEXT) if r.random() < 0.4 else no_text(r, r.choice(ABBREVIATIONS))), (TypeError,))
    if kind == 2:
        return Fault("name with a surrogate", wrap(r.choice(SURROGATES)), (ValueError,))
    if kind == 3:
        return Fault("no iterable", r.choice(NOT_ITERABLE), (TypeError,))
    if kind == 4:
        return Fault("bare string of names", r.choice(STRINGS), (TypeError,))
    if kind == 5:
        e = Halt("stop")
        return Fault("iterable that raises a BaseException", raising(r, e, good), (Halt,), exact=e)
    if kind == 6:
        e = r.choice([Boom, ValueError, KeyError, RuntimeError, OSError, MemoryError, IndexError, UnicodeError, OverflowError,
                      AttributeError, TypeError, RecursionError])("from the caller")
        return Fault("iterable that raises", raising(r, e, good), (type(e),), exact=e)
    if kind == 7:
        class NotIterator:
            def __iter__(self):
                return 5
        return Fault("__iter__ of the wrong kind", NotIterator(), (TypeError,))
    if expand:
        return Fault("None for names", None, (TypeError,))
    return Fault("bytes for names", b"Lu", (TypeError,))


def pick_number(r):
    return r.choice([r.randrange(MAX + 1), r.randrange(300), 0, 1, 65, 127, 128, 255, 256, 0xD800, 0xFFFF, 0x10000, MAX])


def bad_number(r):
    kind = r.randrange(6)
    if kind == 0:
        return Fault("number of the wrong type", r.choice(NOT_INT) if r.random() < 0.4 else no_int(r, pick_number(r)), (TypeError,))
    if kind == 1:
        return Fault("number that does not fit", r.choice([*TOO_BIG, -pick_number(r) - 1, -r.randrange(1, 2 ** 40), 2 ** 32 + pick_number(r), r.randrange(2 ** 32, 2 ** 70)]), (OverflowError,))
    if kind in (2, 3):
        return Fault("bound out of range", r.choice([*OUT_OF_RANGE, r.randrange(MAX + 1, 2 ** 32), MAX + r.randrange(1, 300)]), (ValueError,))
    if kind == 4:
        e = Boom("index")

        class Index:
            def __index__(self):
                raise e
        return Fault("number that raises", Index(), (Boom,), exact=e)

    class Wrong:
        def __index__(self):
            return "5"
    return Fault("number of the wrong index", Wrong(), (TypeError,))


def bad_text(r):
    if r.random() < 0.5:
        return Fault("text with a surrogate", r.choice(SURROGATES) + "a" * r.randrange(3), (ValueError,))
    if r.random() < 0.5:
        return Fault("no text", no_text(r, r.choice(["", "a", "abc", "é", "\U0001f600"])), (TypeError,))
    return Fault("no text", r.choice([5, None, b"a", 1.5, object(), ["a"], ("a",), bytearray(b"a"), {"a"}]), (TypeError,))


def bad_version(r):
    if r.random() < 0.4:
        return Fault("no version", r.choice(NOT_VERSION), (TypeError,))
    v = r.choice(VERSIONS)
    numbers = tuple(map(int, v.split(".")))
    return Fault("no version", r.choice([v, "V" + v.replace(".", "_"), numbers, list(numbers), numbers[0], float(numbers[0]), Says(v), no_text(r, v),
                                         VERSIONS.index(v), decimal.Decimal(".".join(v.split(".")[:2])), f'UnicodeVersion("{v}")',
                                         collections.namedtuple("Version", "major minor patch")(*numbers)]), (TypeError,))


PARAMETERS = {
    "categories": lambda r: bad_names(r, False),
    "exclude_categories": lambda r: bad_names(r, False),
    "min_codepoint": bad_number,
    "max_codepoint": bad_number,
    "include_characters": bad_text,
    "exclude_characters": bad_text,
    "version": bad_version,
}


def observe(m, what, call, faults):
    """Make a bad call and judge how it ends."""
    try:
        got = call()
    except BaseException as e:  # noqa: BLE001
        halting = any(isinstance(f.exact, Halt) for f in faults)
        m.check(isinstance(e, Exception) or (halting and isinstance(e, Halt)), lambda: f"{what()} raised {type(e)}: {e}")
        m.check(getattr(builtins, type(e).__name__, None) is type(e) or isinstance(e, (Boom, Halt)),
                lambda: f"{what()} raised {type(e)}: {e}")
        ok = [f for f in faults if type(e) in f.types or (f.exact is None and isinstance(e, f.types))]
        m.check(ok, lambda: f"{what()} raised {type(e).__name__}: {shorten(str(e))}, should be one of "
                f"{[t.__name__ for f in faults for t in f.types]}")
        if len(faults) == 1:
            f = faults[0]
            if type(f.exact) is TypeError:
                # The binding names the argument in these.
                m.check(str(f.exact) in str(e), lambda: f"{what()} raised {e!r} instead of passing {f.exact!r} on")
            elif f.exact is not None:
                m.check(e is f.exact, lambda: f"{what()} raised {e!r} instead of passing {f.exact!r} on")
                m.check(e.__cause__ is None, lambda: f"{what()} gave the exception a cause: {e.__cause__!r}")
                m.count("exceptions passed through")
            if f.names is not None:
                m.check(f.names in str(e), lambda: f"{what()} raised {shorten(str(e))}, which does not name {shorten(f.names)}")
                m.count("messages naming the value")
        m.count(f"raised {type(e).__name__}")
        return
    m.fail(f"{what()} returned {shorten(got)} instead of raising")
