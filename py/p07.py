"""P07: the type stub against what runs."""
import ast
import collections
import inspect
import os

import faults
import pymon
from pymon import ABBREVIATIONS, KINDS, MAJORS, MAX, VERSIONS, Custom, Int, Str, shorten

KIND_NAMES = {"posonly": inspect.Parameter.POSITIONAL_ONLY, "both": inspect.Parameter.POSITIONAL_OR_KEYWORD,
              "keyword": inspect.Parameter.KEYWORD_ONLY}
DEFAULTS = {"query": {"categories": None, "exclude_categories": None, "min_codepoint": None, "max_codepoint": None,
                      "include_characters": "", "exclude_characters": "", "version": None},
            "categories": {"version": None}, "as_general_categories": {"version": None}}


def parameters(f):
    """Name, kind and whether it has a default, of each parameter of a stub function."""
    a = f.args
    out = []
    positional = a.posonlyargs + a.args
    first = len(positional) - len(a.defaults)
    for i, x in enumerate(positional):
        out.append((x.arg, KIND_NAMES["posonly" if i < len(a.posonlyargs) else "both"], i >= first))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((x.arg, KIND_NAMES["keyword"], d is not None))
    return out


def signatures(m, u):
    """The stub, entry by entry."""
    path = os.path.join(os.path.dirname(u.__file__), "__init__.pyi")
    with open(path) as f:
        tree = ast.parse(f.read())
    public = set()
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            public.add(node.name)
            f = getattr(u, node.name, None)
            m.check(callable(f), lambda: f"{node.name} of the stub is {f!r}")
            want = parameters(node)
            try:
                sig = inspect.signature(f)
            except (ValueError, TypeError) as e:
                m.fail(f"{node.name} has no signature: {e}")
            got = [(p.name, p.kind, p.default is not p.empty) for p in sig.parameters.values()]
            m.check(sorted(got) == sorted(want) and [g for g in got if g[1] != KIND_NAMES["keyword"]] ==
                    [w for w in want if w[1] != KIND_NAMES["keyword"]],
                    lambda: f"{node.name} is {sig}, the stub has {[(n, str(k), d) for n, k, d in want]}")
            for p in sig.parameters.values():
                if p.default is not p.empty:
                    m.check(p.default == DEFAULTS[node.name][p.name], lambda: f"the default of {p.name} of {node.name} is {p.default!r}")
                m.seen((node.name, p.name))
        elif isinstance(node, ast.ClassDef):
            public.add(node.name)
            cls = getattr(u, node.name, None)
            m.check(isinstance(cls, type), lambda: f"{node.name} of the stub is {cls!r}")
            final = any(isinstance(d, ast.Name) and d.id == "final" for d in node.decorator_list)
            try:
                type("Sub", (cls,), {})
                open_ = True
            except TypeError:
                open_ = False
            m.check(final != open_, lambda: f"{node.name} {'can' if open_ else 'cannot'} be subclassed, the stub says otherwise")
            members = set()
            for x in node.body:
                if isinstance(x, ast.AnnAssign):
                    members.add(x.target.id)
                    value = getattr(cls, x.target.id, None)
                    m.check(type(value) is cls, lambda: f"{node.name}.{x.target.id} is {value!r}")
                elif isinstance(x, ast.FunctionDef):
                    members.add(x.name)
                    m.check(callable(getattr(cls, x.name, None)), lambda: f"{node.name}.{x.name} is missing")
                    static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in x.decorator_list)
                    if static:
                        m.check(isinstance(inspect.getattr_static(cls, x.name), staticmethod), lambda: f"{node.name}.{x.name} is not static")
                m.seen((node.name, ast.dump(x)))
            extra = {n for n in vars(cls) if not n.startswith("_")} - members
            m.check(not extra, lambda: f"{node.name} has {sorted(extra)}, which the stub does not")
        elif isinstance(node, ast.AnnAssign):
            public.add(node.target.id)
            m.check(hasattr(u, node.target.id), lambda: f"{node.target.id} of the stub is missing")
        elif isinstance(node, ast.Assign) and node.targets[0].id == "__all__":
            want = ast.literal_eval(node.value)
            m.check(sorted(u.__all__) == sorted(want), lambda: f"__all__ is {u.__all__}, the stub's is {want}")
    stub = public - {"__all__"}
    m.check(set(u.__all__) == stub, lambda: f"__all__ is {u.__all__}, the stub has {sorted(stub)}")
    star = {}
    exec("from unicode_intervals import *", star)  # noqa: S102
    got = {n for n in star if n != "__builtins__"}
    m.check(got == stub, lambda: f"a star import gives {sorted(got)}")
    import types

    shown = {n for n in dir(u) if not n.startswith("_") and not isinstance(getattr(u, n), types.ModuleType)}
    m.check(shown == {n for n in stub if not n.startswith("_")}, lambda: f"public names are {sorted(shown)}, the stub has {sorted(stub)}")
    inner = {n for n in dir(u.unicode_intervals) if not n.startswith("_")}
    m.check(inner <= stub, lambda: f"the compiled module has {sorted(inner - stub)}, which the stub does not")
    m.check(type(u.__version__) is str and u.__version__.count(".") >= 2, lambda: f"__version__ is {u.__version__!r}")
    m.check(type(u.available_versions) is tuple and all(type(v) is u.UnicodeVersion for v in u.available_versions),
            lambda: f"available_versions is {u.available_versions!r}")
    m.count("stub entries", len(stub))


class Watched(Custom):
    """Counts how it is read."""

    def __init__(self, items):
        super().__init__(items)
        self.given = 0
        self.ends = 0

    def __iter__(self):
        self.iters += 1

        def gen():
            for x in self.items:
                self.given += 1
                yield x
            self.ends += 1
        return gen()

    def __len__(self):
        return 7

    def __length_hint__(self):
        return -5

    def __contains__(self, x):
        raise AssertionError("asked about membership")

    def __getitem__(self, i):
        raise AssertionError("asked for an item")


class Lying(list):
    """A list that is read differently than it is stored."""

    def __iter__(self):
        return iter(["Nd", "Sm"])

    def __len__(self):
        return 10 ** 6

    def __getitem__(self, i):
        return "Lu"


class LyingTuple(tuple):
    __slots__ = ()

    def __iter__(self):
        return iter(["Nd", "Sm"])


class Keys(collections.abc.Mapping):
    def __init__(self, items):
        self.items_ = list(items)

    def __iter__(self):
        return iter(self.items_)

    def __len__(self):
        return len(self.items_)

    def __getitem__(self, k):
        return "not a category"


class Index:
    def __init__(self, value):
        self.value, self.asked = value, 0

    def __index__(self):
        self.asked += 1
        return self.value


MORE = dict(KINDS)
MORE.update({
    "watched": Watched,
    "mapping": Keys,
    "chain map": lambda x: collections.ChainMap(dict.fromkeys(x)),
    "counter": collections.Counter,
    "ordered dict": collections.OrderedDict.fromkeys,
    "zip": lambda x: (a for (a,) in zip(list(x))),
    "set iterator": lambda x: iter(set(x)),
    "dict iterator": lambda x: iter(dict.fromkeys(x)),
    "dict items": lambda x: map(lambda p: p[0], dict.fromkeys(x).items()),
    "islice": lambda x: __import__("itertools").islice(list(x), 1000),
    "tee": lambda x: __import__("itertools").tee(list(x))[1],
    "callable iterator": lambda x: iter(iter([*x, "end"]).__next__, "end"),
    "proxy": lambda x: __import__("types").MappingProxyType(dict.fromkeys(x)),
    "string subclass items": lambda x: [Str(y) for y in x],
    "user dict": lambda x: collections.UserDict(dict.fromkeys(x)),
    "memory of strings": lambda x: __import__("enum").Enum("E", {f"k{i}": y for i, y in enumerate(dict.fromkeys(x))}, type=str),
})


def iterables(m, u):
    """Any iterable of names means the same."""
    r = m.r
    for i in range(m.args.amount):
        v = r.choice([None, *u.available_versions])
        names = [r.choice(ABBREVIATIONS) for _ in range(r.choice([0, 1, 2, 3, 8, 30, 70]))]
        expand = [r.choice(ABBREVIATIONS + MAJORS) for _ in range(r.choice([0, 1, 2, 3, 8, 30, 70]))]
        other = dict(version=v)
        if r.random() < 0.4:
            other["max_codepoint"] = r.choice([127, 255, 256, 0x3FFF, MAX])
        param = r.choice(["categories", "exclude_categories"])
        want = u.query(**{param: list(names)}, **other)
        want_expand = u.as_general_categories(list(expand), v)
        for kind in r.sample(list(MORE), 9):
            x = MORE[kind](names)
            try:
                got = u.query(**{param: x}, **other)
            except Exception as e:  # noqa: BLE001
                m.fail(f"query({param}={kind} of {shorten(names)}) raised {e!r}")
            m.check(got == want, lambda: f"query({param}={kind} of {shorten(names)}) differs from that of a list")
            y = MORE[kind](expand)
            way = r.randrange(3)
            try:
                got = (u.as_general_categories(y, v) if way == 0 else u.as_general_categories(categories=y, version=v) if way == 1
                       else u.as_general_categories(y, version=v))
            except Exception as e:  # noqa: BLE001
                m.fail(f"as_general_categories({kind} of {shorten(expand)}) raised {e!r}")
            m.check(got == want_expand, lambda: f"as_general_categories({kind} of {shorten(expand)}) differs from that of a list")
            for z, what in ((x, names), (y, expand)):
                if isinstance(z, Watched):
                    m.check((z.iters, z.given, z.ends) == (1, len(what), 1),
                            lambda: f"an iterable of {len(what)} was started {z.iters} times, gave {z.given}, ended {z.ends} times")
                    m.count("consumed once, seen")
                elif type(z) is Custom:
                    m.check(z.iters == 1, lambda: f"an iterable was started {z.iters} times")
                elif hasattr(z, "__next__"):
                    m.check(next(z, None) is None, lambda: f"a {kind} was not used up")
                elif isinstance(z, (list, set, dict, frozenset, tuple)) and kind != "counter":
                    m.check(sorted(z) == sorted(set(what) if isinstance(z, (set, dict, frozenset)) else what), lambda: f"a {kind} was changed")
            m.seen((kind, param, names[:4], len(names)))
            m.count(f"names as {kind}", 2)
        m.sample(lambda: f"query({param}=... {shorten(names)}, {other})")
        if i % 50 == 0:
            # What is iterated is what counts.
            for cls in (Lying, LyingTuple):
                m.check(u.as_general_categories(cls(["Cc", "Zs"]), v) == u.as_general_categories(["Nd", "Sm"], v),
                        lambda: f"a {cls.__name__} was not read by iterating it")
                m.check(u.query(categories=cls(["Cc", "Zs"]), version=v) == u.query(categories=["Nd", "Sm"], version=v),
                        lambda: f"a {cls.__name__} was not read by iterating it")
            # One iterator for two arguments: the first takes it all.
            it = iter(["Lu", "Nd"])
            a = u.query(categories=it, exclude_categories=it, version=v)
            m.check(a in ((), u.query(categories=["Lu", "Nd"], version=v)), lambda: f"a shared iterator gave {shorten(a)}")


def numbers(m, u):
    """Any int means its value."""
    r = m.r
    for _ in range(m.args.amount):
        v = r.choice([None, *u.available_versions])
        lo, hi = sorted(r.choice([r.randrange(2), r.randrange(300), r.randrange(MAX + 1), MAX, 0]) for _ in range(2))
        cats = r.choice([None, ["Lu", "Nd"], ["Cn"]])
        want = u.query(min_codepoint=lo, max_codepoint=hi, categories=cats, version=v)

        def forms(x):
            out = [x, Int(x), Index(x), Index(Int(x))]
            if x < 2:
                out.append(bool(x))
            return out
        a, b = r.choice(forms(lo)), r.choice(forms(hi))
        got = u.query(min_codepoint=a, max_codepoint=b, categories=cats, version=v)
        m.check(got == want, lambda: f"bounds {lo} and {hi} as {type(a).__name__} and {type(b).__name__} differ from ints")
        # Left out, None and the default mean the same.
        m.check(u.query(min_codepoint=None, max_codepoint=hi, categories=cats, version=v) == u.query(max_codepoint=hi, categories=cats, version=v)
                == u.query(min_codepoint=0, max_codepoint=hi, categories=cats, version=v), "no minimum is not 0")
        m.check(u.query(min_codepoint=lo, max_codepoint=None, categories=cats, version=v) == u.query(min_codepoint=lo, categories=cats, version=v)
                == u.query(min_codepoint=lo, max_codepoint=MAX, categories=cats, version=v), "no maximum is not the last codepoint")
        m.seen((lo, hi, type(a).__name__, type(b).__name__))
        m.count(f"bounds as {type(a).__name__}")


def text(m, u):
    """Any str means its characters."""
    r = m.r
    for _ in range(m.args.amount):
        base = r.choice([0, 0x80, 0x100, 0x3B1, 0xD7F0, 0xE000, 0xFFF0, 0x10000, 0x1F600, MAX - 40])
        s = "".join(chr(min(MAX, base + r.randrange(40))) if not 0xD800 <= base < 0xE000 else "" for _ in range(r.choice([0, 1, 2, 9, 60])))
        s = "".join(c for c in s if not 0xD800 <= ord(c) <= 0xDFFF)
        param = r.choice(["include_characters", "exclude_characters"])
        other = {"categories": r.choice([[], ["Ll", "So"]])}
        want = u.query(**{param: s}, **other)
        points = {ord(c) for c in s}
        got = {x for a, b in u.query(include_characters=s, categories=[]) for x in range(a, b + 1)}
        m.check(got == points, lambda: f"the characters {shorten(s)} are {shorten(sorted(got))}")
        interned = __import__("sys").intern("".join([s, ""]))
        for form in (Str(s), "".join(list(s)), s.encode().decode(), interned, (s + "x")[:-1], s[::-1], s + s, "".join(sorted(s))):
            m.check(u.query(**{param: form}, **other) == want, lambda: f"{param}={shorten(form)} ({type(form).__name__}) differs")
            m.seen((param, form))
            m.count(f"characters as {type(form).__name__}")
        if s:
            m.check(u.query(**other) == u.query(**{param: ""}, **other), "no characters are not the empty string")


def versions(m, u):
    """Values to compare, hash and look up by."""
    V = u.UnicodeVersion
    r = m.r
    for _ in range(m.args.amount // 3):
        some = [r.choice([lambda s=s: V(s), lambda s=s: V(value=s), lambda s=s: getattr(V, "V" + s.replace(".", "_")),
                          lambda s=s: u.available_versions[VERSIONS.index(s)], lambda s=s: V(Str(s))])()
                for s in (r.choice(VERSIONS) for _ in range(r.randrange(1, 40)))]
        text_ = [str(v) for v in some]
        m.check(len(set(some)) == len(set(text_)) and len(dict.fromkeys(some)) == len(set(text_)), lambda: f"a set of {text_} has {len(set(some))}")
        for v, s in zip(some, text_):
            m.check(hash(v) == hash(V(s)) and v == V(s) and not v != V(s), lambda: f"two values of {s} differ")
            m.check({V(s): 1}.get(v) == 1 and v in {V(s)} and v in frozenset([V(s)]), lambda: f"{s} is not found by an equal value")
        d = {}
        for i, v in enumerate(some):
            d[v] = i
        last = {s: i for i, s in enumerate(text_)}
        m.check({str(k): i for k, i in d.items()} == last, lambda: f"a dict by versions is {d}, should be {last}")
        for v in some:
            d.pop(V(str(v)), None)
        m.check(not d, lambda: f"versions stayed in a dict: {d}")
        c = collections.Counter(some)
        m.check({str(k): n for k, n in c.items()} == collections.Counter(text_), "counting versions went wrong")
        m.check(some.index(V(text_[-1])) == text_.index(text_[-1]) and some.count(V(text_[0])) == text_.count(text_[0]), "searching versions went wrong")
        v = some[0]
        for other in (None, text_[0], 0, object(), V, (v,), 1.0):
            m.check((v == other) is False and (v != other) is True and (other == v) is False, lambda: f"{v!r} equals {other!r}")
        m.seen(tuple(text_))
        m.count("version values compared", len(some))
        # However a version was obtained, and given by position or name, it means the same.
        a, b = V(text_[0]), r.choice([x for x in some if str(x) == text_[0]])
        m.check(u.categories(a) is u.categories(version=b), lambda: f"categories({a}) depends on the value")
        m.check(u.as_general_categories(["L"], a) == u.as_general_categories(categories=["L"], version=b), lambda: f"expansion depends on the value of {a}")
        m.check(u.query(categories=["Lu"], version=a) == u.query(version=b, categories=("Lu",)), lambda: f"query depends on the value of {a}")
    for f, kw in ((u.categories, {}), (u.as_general_categories, {"categories": ["L", "Sk"]}), (u.query, {"categories": ["Lu"]})):
        m.check(f(**kw) == f(**kw, version=None) == f(**kw, version=V.latest()), lambda: f"None for a version of {f} is not the latest")
        m.seen((f.__name__, "none"))
    m.check(u.categories() is u.categories(None) is u.categories(V.latest()), "categories() is not that of the latest")
    m.check(u.query(categories=None, exclude_categories=None, include_characters="", exclude_characters="", version=None) == u.query(),
            "None means something")


def refused(m, u):
    """Arguments the stub's types do not allow."""
    r = m.r
    for i in range(m.args.amount):
        p = r.choice([*faults.PARAMETERS, "names", "names", "expansion's version", "categories' version", "value"])
        if p == "value":
            f = faults.Fault("no version number", faults.no_text(r, r.choice(VERSIONS)), (TypeError,))
            call, what = lambda: u.UnicodeVersion(f.value), "UnicodeVersion"  # noqa: E731
        elif p == "names":
            f = faults.bad_names(r, True)
            call, what = lambda: u.as_general_categories(f.value), "as_general_categories"  # noqa: E731
        elif p == "expansion's version":
            f = faults.bad_version(r)
            call, what = lambda: u.as_general_categories(["L"], f.value), "as_general_categories(['L'], ...)"  # noqa: E731
        elif p == "categories' version":
            f = faults.bad_version(r)
            call, what = lambda: u.categories(f.value), "categories"  # noqa: E731
        else:
            f = faults.PARAMETERS[p](r)
            call, what = lambda: u.query(**{p: f.value}), f"query with {p}"  # noqa: E731
        if f.types != (TypeError,) or f.exact is not None:
            # Of the right type, and wrong otherwise: P03's.
            continue
        faults.observe(m, lambda: f"{what} and {shorten(f.value)} ({f.label})", call, [f])
        m.seen((i // 20, what, f.label, shorten(f.value)))
        m.count("arguments of other types refused")


def body(m):
    u = pymon.load()
    signatures(m, u)
    [iterables, numbers, text, versions, refused, iterables, refused, text][m.args.part % 8](m, u)


pymon.run(body)
