"""One process of P09: `p09child.py MODE SEED CASES OUT`; every call's place, arguments and result go to OUT, a line each."""
import atexit
import builtins
import gc
import importlib
import json
import os
import random
import signal
import sys
import threading
import time
import types
import warnings
import weakref

import pymon

mode, seed, path, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
warnings.simplefilter("ignore")
FD = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
r = random.Random(seed)
CASES = list(pymon.cases(path))
# Those of the default version.
LATEST = [i for i, c in enumerate(CASES) if c[0] == pymon.VERSIONS[-1]]
# How long a process or thread of ours may take.
PATIENCE = 45


def put(*record, write=os.write, fd=FD, dumps=json.dumps):
    write(fd, (dumps(record) + "\n").encode())


class Client:
    """Calls that need nothing of this module or any other but the package, so that they work while modules go away."""

    def __init__(self, u):
        self.u, self.put, self.crc, self.cases, self.latest = u, put, pymon.crc, CASES, LATEST
        self.error, self.bad = ValueError, (TypeError, OverflowError)
        self.names, self.kinds, self.last, self.n = pymon.ABBREVIATIONS, pymon.MAJORS, pymon.VERSIONS[-1], 0

    def version(self, v):
        """As a keyword, or omitted now and then if it is the default."""
        self.n += 1
        return {} if v == self.last and self.n % 3 else {"version": self.u.UnicodeVersion(v)}

    def plan(self, rr, n, own=False):
        """Some calls; `own`: none whose exception comes from PyO3's reading of arguments."""
        todo = []
        for _ in range(n):
            kind = rr.randrange(8)
            v = rr.choice(pymon.VERSIONS + pymon.VERSIONS[-1:] * 2)
            if kind < 2:
                todo.append(["query", rr.choice(self.latest) if rr.random() < 0.3 else rr.randrange(len(self.cases))])
            elif kind == 2:
                todo.append(["categories", v])
            elif kind == 3:
                names = [rr.choice(self.names + self.kinds) for _ in range(rr.randrange(5))] + ["nope"] * (rr.random() < 0.2)
                todo.append(["expand", v, names])
            elif kind == 4:
                todo.append(["version", v])
            elif kind > 5:
                lo, hi = sorted(rr.choice((0, 0x41, 0x377, 0x2FFF, 0xFFFF, 0x10000, 0x1F600, 0xE0000, 0x10FFFF, rr.randrange(0x110000))) for _ in "ab")
                todo.append(["cover", v, rr.sample(self.names, rr.choice((1, 2, 3, 5))) if rr.random() < 0.9 else None,
                             rr.sample(self.names, rr.choice((0, 0, 1, 3))), *rr.choice(([None, None], [lo, None], [None, hi], [lo, hi])),
                             "".join(rr.choice("aZ0 \u0378\u20c1\uffff\U00010000\U0001fae9") for _ in range(rr.randrange(3)))])
            else:
                todo.append(["bad", rr.choice((0, 4) if own else range(5))])
        return todo

    def do(self, what):
        u, kind = self.u, what[0]
        if kind == "query":
            version, inc, exc, inc_chars, exc_chars, lo, hi, _ = self.cases[what[1]]
            try:
                got = u.query(categories=inc, exclude_categories=exc, include_characters=inc_chars or "", exclude_characters=exc_chars or "",
                              min_codepoint=lo, max_codepoint=hi, **self.version(version))
            except self.error as e:
                return "range" if "range" in str(e) else "inverted"
            return [len(got), sum(a * 31 + b for a, b in got) % 1000003]
        if kind == "cover":
            _, version, inc, exc, lo, hi, chars = what
            more = {}
            if exc:
                more["exclude_categories"] = exc
            if lo is not None:
                more["min_codepoint"] = lo
            if hi is not None:
                more["max_codepoint"] = hi
            if chars:
                more["include_characters"] = chars
            got = u.query(categories=inc, **more, **self.version(version))
            return [len(got), sum(a * 31 + b for a, b in got) % 1000003]
        if kind == "categories":
            got = u.categories(**self.version(what[1]))
            return [got is u.categories(u.UnicodeVersion(what[1])), *got]
        if kind == "expand":
            try:
                return list(u.as_general_categories(what[2], **self.version(what[1])))
            except self.error:
                return "rejected"
        if kind == "version":
            v = u.UnicodeVersion(what[1])
            return [str(v), repr(v), str(u.UnicodeVersion.latest()), [str(x) for x in u.available_versions].index(what[1]),
                    v == u.UnicodeVersion(what[1]), hash(v) == hash(u.UnicodeVersion(what[1]))]
        try:
            if what[1] == 0:
                u.query(categories=["Lu", "zz"])
            elif what[1] == 1:
                u.query(min_codepoint=1 << 40)
            elif what[1] == 2:
                u.categories(5)
            elif what[1] == 3:
                u.query(include_characters="\ud800")
            else:
                u.UnicodeVersion("1")
        except self.error:
            return "ValueError"
        except self.bad as e:
            return type(e).__name__
        return "nothing"

    def run(self, where, todo):
        for what in todo:
            try:
                value = self.do(what)
            except BaseException as e:  # noqa: BLE001
                value = f"raised {type(e).__name__}: {e}"
            self.put(where, what, value)


def client():
    import unicode_intervals as u
    return Client(u)


def wait(pid, where):
    """A child of ours ends by itself, with status 0."""
    end = time.monotonic() + PATIENCE
    while True:
        got, status = os.waitpid(pid, os.WNOHANG)
        if got:
            put("status", [where], status)
            return
        if time.monotonic() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            put("status", [where], "no end")
            return
        time.sleep(0.002)


def forked(where, todo, c=None, depth=0, normal=False):
    """Call in a copy of this process."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            (c or client()).run(where, todo)
            if depth:
                forked(where + " of a child", todo[::-1], c, depth - 1)
            code = 0
        finally:
            if not (normal and code == 0):
                os._exit(code)
        # Through everything that happens at exit.
        sys.exit(0)
    wait(pid, where)


def early():
    """Copies made before the first import, before the first call, after it."""
    todo = Client.plan(Probe, r, 30)
    forked("child forked before the import", todo)
    c = client()
    forked("child forked before the first call", todo, c, r.randrange(3))
    c.run("parent", todo[:1])
    forked("child forked after the first call", todo, c, r.randrange(2))
    c.run("parent", todo)
    forked("child forked later", todo, c, 1, normal=True)
    c.run("parent", todo)
    t = threading.Thread(target=forked, args=("child forked by a thread", todo, c))
    t.start()
    t.join()
    c.run("parent", todo[::-1])


class Probe:
    """What plans are made from before there is a package."""
    cases, latest, names, kinds = CASES, LATEST, pymon.ABBREVIATIONS, pymon.MAJORS


def busy():
    """Copies made while other threads call, first calls included.

    PyO3 raises its own TypeErrors and OverflowErrors with a lock held and the interpreter let go, which a copy
    would wait for; the calls here leave those out.
    """
    c = client()
    stop = threading.Event()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    todo = c.plan(r, 400, own=True)

    def work(i):
        rr = random.Random(seed * 77 + i)
        while not stop.is_set():
            c.do(rr.choice(todo))
    threads = [threading.Thread(target=work, args=(i,)) for i in range(r.choice([1, 3, 8]))]
    for t in threads:
        t.start()
    try:
        for i in range(8):
            forked("child forked while threads call", todo[i * 40:i * 40 + 40], c)
    finally:
        stop.set()
    for t in threads:
        t.join(PATIENCE)
        put("status", ["thread of a forking process"], t.is_alive() and "no end" or 0)
    c.run("parent", todo[:40])


def pool_work(where, todo):
    client().run(where, todo)
    return len(todo)


def pools():
    """multiprocessing's and concurrent.futures' workers."""
    import concurrent.futures
    import multiprocessing

    c = client()
    kind = ["fork", "spawn", "forkserver"][seed % 3]
    if r.random() < 0.5:
        c.run("parent", c.plan(r, 10))
    ctx = multiprocessing.get_context(kind)
    where = f"worker started by {kind}"
    with concurrent.futures.ProcessPoolExecutor(3, mp_context=ctx) as pool:
        got = [pool.submit(pool_work, where, c.plan(r, 20)) for _ in range(6)]
        put("status", ["workers' answers"], 0 if [g.result(PATIENCE) for g in got] == [20] * 6 else "wrong")
    c.run("parent", c.plan(r, 10))


def handlers():
    """Signal handlers, weak reference callbacks, finalizers and collections that call, at any moment."""
    c = client()
    todo = c.plan(r, 300)
    some = c.plan(r, 40)
    state = [0]

    def handler(*_):
        state[0] += 1
        c.run("signal handler", [some[state[0] % len(some)]])
    signal.signal(signal.SIGALRM, handler)
    signal.signal(signal.SIGUSR1, handler)
    signal.setitimer(signal.ITIMER_REAL, 0.0005, 0.0007)

    class Me:
        def __del__(self):
            c.run("finalizer", [some[state[0] % len(some)]])
            state[0] += 1
    gc.set_threshold(5, 2, 2)
    gc.callbacks.append(lambda phase, _: c.run("collection", some[:1]) if r.random() < 0.01 else None)
    for i, what in enumerate(todo):
        x = Me()
        x.me = x
        y = Me()
        ref = weakref.ref(y, lambda _: c.run("weak reference", [some[3]]))
        del x, y
        if i % 10 == 0:
            os.kill(os.getpid(), signal.SIGUSR1)
        c.run("between", [what])
        del ref

        def items(i=i):
            for n in ("Lu", "Nd", "Zs"):
                signal.raise_signal(signal.SIGUSR1)
                yield n
        if i % 10 == 0:
            got = c.u.as_general_categories(items(), c.u.UnicodeVersion("9.0.0"))
            put("argument read during signals", ["expand", "9.0.0", ["Lu", "Nd", "Zs"]], list(got))
    signal.setitimer(signal.ITIMER_REAL, 0)
    gc.callbacks.clear()
    gc.set_threshold(700, 10, 10)
    # A handler that raises ends the call it interrupts, and nothing else.

    def angry(*_):
        raise KeyError("from a handler")
    signal.signal(signal.SIGUSR2, angry)

    def broken():
        yield "Lu"
        signal.raise_signal(signal.SIGUSR2)
        yield "Ll"
    for _ in range(20):
        try:
            c.u.query(categories=broken())
            put("status", ["exception of a handler"], "lost")
        except KeyError:
            put("status", ["exception of a handler"], 0)
        c.run("after a handler's exception", [r.choice(some)])


def traced():
    """Trace and profile functions and monitoring callbacks that call."""
    c = client()
    todo = c.plan(r, 60)
    some = c.plan(r, 20)
    n = [0]

    def call(where):
        n[0] += 1
        if n[0] % 5 == 0:
            c.run(where, [some[n[0] % len(some)]])

    def profile(frame, event, arg):
        if event.startswith("c_"):
            sys.setprofile(None)
            call("profile function")
            sys.setprofile(profile)

    def trace(frame, event, arg):
        sys.settrace(None)
        call("trace function")
        sys.settrace(trace)
        return trace
    sys.setprofile(profile)
    for what in todo:
        c.run("profiled", [what])
    sys.setprofile(None)
    sys.settrace(trace)
    for what in todo:
        c.run("traced", [what])
    sys.settrace(None)
    sys.addaudithook(lambda event, _: call("audit hook") if event in ("open", "import", "object.__getattr__") else None)
    for what in todo[:20]:
        os.close(os.open(os.devnull, os.O_RDONLY))
        c.run("audited", [what])


class Late:
    """Calls when it goes, as late as that may be."""

    def __init__(self, c, where, todo):
        self.c, self.where, self.todo = c, where, todo

    def __del__(self):
        self.c.run(self.where, self.todo)


def ending():
    """Exit handlers from before and after the import, what modules and the interpreter hold to the end, threads that
    outlive the main one; but no daemon threads, which CPython 3.12 ends in the middle of what they do.
    Once the interpreter is being taken apart, PyO3 panics where it would raise errors of its own; those are left out."""
    first = Client.plan(Probe, r, 8)
    held = []
    # Runs last: it was registered first.
    atexit.register(lambda: held[0].run("exit handler from before the import", first))
    c = client()
    held.append(c)
    if r.random() < 0.5:
        c.run("parent", c.plan(r, 20))
    atexit.register(c.run, "exit handler", c.plan(r, 8))
    threading._register_atexit(c.run, "thread exit handler", c.plan(r, 8))
    weakref.finalize(c.u.UnicodeVersion, c.run, "finalizer at exit", c.plan(r, 8))
    kept = types.ModuleType("kept")
    kept.late = Late(c, "variable of a module", c.plan(r, 8, own=True))
    sys.modules["kept"] = kept
    del kept
    x = Late(c, "cycle at exit", c.plan(r, 8, own=True))
    x.me = x
    def slow():
        time.sleep(0.02)
        c.run("thread that outlives the main one", c.plan(r, 8))
    threading.Thread(target=slow).start()
    if seed % 4 == 1:
        put("status", ["end"], 0)
        sys.exit(0)
    if seed % 4 == 2:
        forked("child that exits", c.plan(r, 10), c, normal=True)


def again():
    """Imported again, reloaded, imported by threads, and by another interpreter."""
    c = client()
    u = c.u
    versions = [u.UnicodeVersion(v) for v in pymon.VERSIONS]
    c.run("first import", c.plan(r, 30))
    for i in range(6):
        todo = c.plan(r, 30)
        kind = r.randrange(4)
        if kind == 0:
            for name in [n for n in sys.modules if n.split(".")[0] == "unicode_intervals"]:
                del sys.modules[name]
        elif kind == 1:
            importlib.reload(sys.modules["unicode_intervals"])
        elif kind == 2:
            sys.modules.pop("unicode_intervals", None)
        got = []

        def load(got=got):
            import unicode_intervals
            got.append(unicode_intervals)
        if r.random() < 0.5:
            threads = [threading.Thread(target=load) for _ in range(4)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        else:
            load()
        for w in got:
            d = Client(w)
            d.run("imported again", todo)
            same = all(w.UnicodeVersion(str(v)) == v and hash(w.UnicodeVersion(str(v))) == hash(v) and w.categories(v) == u.categories(v)
                       and w.query(version=v, categories=["Lu"]) == u.query(version=v, categories=["Lu"]) for v in versions)
            put("status", ["version values from before"], 0 if same and list(w.available_versions) == versions else "differ")
        gc.collect()
        c.run("first import", todo)
    try:
        import _xxsubinterpreters as sub
    except ImportError:
        return
    # Refused or right, and nothing breaks.
    code = ("try:\n import unicode_intervals as u\n ok = u.query(max_codepoint=70, categories=['Lu']) == ((65, 70),)\n"
            "except ImportError:\n ok = True\nassert ok")
    for _ in range(2):
        i = sub.create()
        try:
            sub.run_string(i, code)
            put("status", ["another interpreter"], 0)
        except Exception as e:  # noqa: BLE001
            put("status", ["another interpreter"], str(e))
        sub.destroy(i)
        c.run("after another interpreter", c.plan(r, 30))


def imports():
    """Copies made whenever the first calls import something."""
    c = client()
    todo = c.plan(r, 40, own=True)
    real, inside = builtins.__import__, []

    def hook(*args, **kw):
        if not inside and (len(args) < 2 or args[1] is None or args[1].get("__name__") not in ours):
            inside.append(1)
            try:
                forked("child forked during an import", todo, c)
            finally:
                inside.clear()
        return real(*args, **kw)
    # What this program imports by itself is not of interest.
    ours = ("__main__", "pymon", "random", "json", "encodings")
    builtins.__import__ = hook
    kinds = list(pymon.KINDS)
    r.shuffle(kinds)
    for kind in kinds:
        try:
            items = pymon.KINDS[kind](["Lu", "N", "Zs"])
        except TypeError:
            continue
        v = r.choice(pymon.VERSIONS)
        put("any iterable", ["expand", v, ["Lu", "N", "Zs"]], list(c.u.as_general_categories(items, c.u.UnicodeVersion(v))))
    c.run("first calls", todo)
    builtins.__import__ = real


def plain():
    """Calls, whatever the environment the process was given."""
    c = client()
    if "SURROUNDINGS_CANARY" in os.environ:
        # In place of the extension, this asks and gets odd answers.
        import ctypes
        different, asked = ctypes.c_int(), ctypes.c_int()
        ctypes.CDLL(os.environ["SURROUNDINGS_CANARY"]).canary(ctypes.byref(different), ctypes.byref(asked))
        put("status", ["odd answers"], 0 if asked.value > different.value > 10 else "none")
    todo = c.plan(r, 150)
    c.run("main thread", todo)
    # A stack as small as interpreters get by with.
    threading.stack_size(256 << 10)
    t = threading.Thread(target=c.run, args=("thread with a small stack", todo))
    t.start()
    t.join()
    threading.stack_size(0)
    import contextvars
    contextvars.copy_context().run(c.run, "context", todo[:20])

    async def coroutine():
        import asyncio
        await asyncio.gather(*(asyncio.to_thread(c.run, "asyncio's threads", todo[i:i + 5]) for i in range(0, 40, 5)))
        c.run("coroutine", todo[:20])
    import asyncio
    asyncio.run(coroutine())


if __name__ == "__main__":
    {"early": early, "busy": busy, "pools": pools, "handlers": handlers, "traced": traced, "ending": ending, "again": again, "imports": imports,
     "plain": plain}[mode]()
    put("status", ["end"], 0)
