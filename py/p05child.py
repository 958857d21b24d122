"""One fresh process of P05: `p05child.py MODE THREADS SEED CASES`; prints what every thread got."""
import faulthandler
import gc
import json
import os
import random
import sys
import threading
import time

import pymon

mode, threads, seed, path = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
faulthandler.dump_traceback_later(50, exit=False)
r = random.Random(seed)
sys.setswitchinterval(r.choice([1e-6, 1e-6, 1e-5, 1e-4]))
CASES = [c for c in pymon.cases(path)]
PICKED = [r.randrange(len(CASES)) for _ in range(12)]
if mode != "import":
    import unicode_intervals as u
barrier = threading.Barrier(threads)
out = [None] * threads
errors = []


def query(u, i, wrap=None):
    version, inc, exc, inc_chars, exc_chars, lo, hi, _ = CASES[i]
    if wrap:
        inc, exc = (x if x is None else wrap(x) for x in (inc, exc))
        lo, hi = (x if x is None else Index(x, wrap([])) for x in (lo, hi))
    try:
        got = u.query(categories=inc, exclude_categories=exc, include_characters=inc_chars or "", exclude_characters=exc_chars or "",
                      min_codepoint=lo, max_codepoint=hi, version=u.UnicodeVersion(version))
    except ValueError as e:
        return "range" if "range" in str(e) else "inverted"
    return [len(got), pymon.crc(got)]


def calls(t):
    """What thread `t` does, as a list of things to call."""
    rr = random.Random(seed * 64 + t)
    every = [["categories", v] for v in pymon.VERSIONS]
    todo = [["query", i] for i in PICKED] + every
    for v in pymon.VERSIONS:
        names = [rr.choice(pymon.ABBREVIATIONS + pymon.MAJORS) for _ in range(rr.randrange(6))]
        if rr.random() < 0.2:
            names.append("nope")
        todo.append(["expand", v, names])
    todo += [["version", v] for v in pymon.VERSIONS] + [["bad", i] for i in range(3)]
    rr.shuffle(todo)
    # What everyone starts with decides what is raced.
    first = {"same": ["categories", pymon.VERSIONS[seed % 11]], "different": ["categories", pymon.VERSIONS[(seed + t) % 11]],
             "query": ["query", PICKED[0]], "import": ["categories", pymon.VERSIONS[seed % 11]]}.get(mode)
    if mode == "all":
        todo = every + todo
    if mode == "busy":
        todo = [[f"busy {w[0]}", *w[1:]] if w[0] in ("query", "expand") else w for w in todo][:24]
    return [first, *todo] if first else todo


def do(u, what, wrap=None):
    kind = what[0]
    if kind == "query":
        return query(u, what[1])
    if kind == "busy query":
        return query(u, what[1], wrap)
    if kind == "busy expand":
        try:
            return list(u.as_general_categories(wrap(what[2]), u.UnicodeVersion(what[1])))
        except ValueError:
            return "rejected"
    if kind == "categories":
        got = u.categories(u.UnicodeVersion(what[1]))
        kept.append(got)
        return [id(got), list(got)]
    if kind == "expand":
        try:
            return list(u.as_general_categories(iter(what[2]), u.UnicodeVersion(what[1])))
        except ValueError:
            return "rejected"
    if kind == "version":
        v = u.UnicodeVersion(what[1])
        return [str(v), str(u.UnicodeVersion.latest()), [str(x) for x in u.available_versions], hash(v) == hash(u.UnicodeVersion(what[1]))]
    caught = []
    for f in (lambda: u.query(categories=["Lu", "zz"]), lambda: u.query(min_codepoint=1 << 40), lambda: u.categories(5),
              lambda: u.query(include_characters="\ud800"), lambda: u.UnicodeVersion("1")):
        try:
            f()
            caught.append("nothing")
        except Exception as e:  # noqa: BLE001
            caught.append(type(e).__name__)
    return caught


class Busy:
    """An iterable of names that runs Python code, gives way and calls the library while it is read."""

    def __init__(self, items, rr, t):
        self.items, self.rr, self.t = list(items), rr, t

    def __iter__(self):
        self.act()
        for item in self.items:
            self.act()
            yield item
        self.act()

    def act(self):
        kind = self.rr.randrange(6)
        if kind == 0:
            time.sleep(self.rr.choice([0, 0, 1e-4, 1e-3]))
        elif kind == 1:
            inner = ["categories", self.rr.choice(pymon.VERSIONS)]
            nested[self.t].append([inner, do(u, inner)])
        elif kind == 2:
            inner = ["query", self.rr.choice(PICKED)]
            nested[self.t].append([inner, do(u, inner)])
        elif kind == 3:
            inner = ["expand", self.rr.choice(pymon.VERSIONS), ["P", "Nd"]]
            nested[self.t].append([inner, do(u, inner)])
        elif kind == 4:
            # A whole call of another thread fits into this one, and has to finish.
            inner, answer, done = ["expand", self.rr.choice(pymon.VERSIONS), ["L", "Cf"]], [], threading.Event()

            def call():
                answer.append(do(u, inner))
                done.set()
            threading.Thread(target=call, daemon=True).start()
            if done.wait(40):
                nested[self.t].append([inner, answer[0]])
            else:
                errors.append(f"{inner} did not finish while another call was reading its argument")
        elif os.path.exists("/proc/self") and self.rr.random() < 0.02:
            # A copy of the process, made in the middle of a call, can call too.
            inner = ["categories", self.rr.choice(pymon.VERSIONS)]
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    code = 0 if do(u, inner)[1] and do(u, ["query", PICKED[0]]) else 1
                finally:
                    os._exit(code)
            end = time.monotonic() + 40
            while True:
                got, status = os.waitpid(pid, os.WNOHANG)
                if got:
                    break
                if time.monotonic() > end:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    status = "no end"
                    break
                time.sleep(0.001)
            if status != 0:
                errors.append(f"a copy of the process could not call: {status}")
            forks.append(1)


class Index:
    """An integer that runs Python code, and calls the library, while it is converted."""

    def __init__(self, value, busy):
        self.value, self.busy = value, busy

    def __index__(self):
        self.busy.act()
        return self.value


nested = [[] for _ in range(threads)]
forks = []


class Finalizer:
    """Calls the library when it is collected, wherever that happens to be."""

    def __init__(self):
        self.me = self

    def __del__(self):
        try:
            u.categories(r.choice(u.available_versions))
            u.query(categories=["Lu"], max_codepoint=300)
        except Exception as e:  # noqa: BLE001
            errors.append(repr(e))


kept = []


def work(t):
    try:
        todo = calls(t)
        rr = random.Random(seed * 128 + t)
        barrier.wait()
        if mode == "import":
            import unicode_intervals as m
        else:
            m = u
        got = []
        for what in todo:
            if mode == "collect":
                Finalizer()
            got.append([what, do(m, what, lambda items: Busy(items, rr, t))])
        out[t] = got + nested[t]
    except BaseException as e:  # noqa: BLE001
        errors.append(f"thread {t}: {type(e)}: {e}")


if mode == "collect":
    gc.set_threshold(1, 1, 1)
ts = [threading.Thread(target=work, args=(t,)) for t in range(threads)]
for t in ts:
    t.start()
for t in ts:
    t.join()
# Once more, alone: nothing may have changed.
if mode == "import" and not errors:
    import unicode_intervals as u
if not errors:
    out.append([[w, do(u, w)] for w in (["categories", v] for v in pymon.VERSIONS)])
print(json.dumps({"errors": errors, "out": out, "nested": sum(map(len, nested)), "forks": len(forks)}))
sys.stdout.flush()
if errors:
    # A thread that hangs does not keep the process.
    os._exit(0)
