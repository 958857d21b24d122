"""G01: the table generator, run with the network and the upstream tool replaced."""
import collections
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import zipfile
from concurrent.futures import ThreadPoolExecutor

import common
from common import REPO, VERIF, Inconclusive

sys.path.insert(0, os.path.join(VERIF, "py"))
import pymon  # noqa: E402

GEN = os.path.join(VERIF, "gen")
SCRIPT = os.path.join(REPO, "generate_tables.py")
# In alphabetical order of their full names.
ORDER = ("Pe Pc Cc Sc Pd Nd Me Pf Cf Pi Nl Zl Ll Sm Lm Sk Mn Ps Lo No Po So Zp Co Zs Mc Cs Lt Cn Lu").split()
MAX = 0x10FFFF
MAIN = """#[path = {path}]
#[allow(dead_code, clippy::all)]
mod table;
fn main() {{
    use std::io::Write;
    let t: &'static [&'static [(u32, u32)]] = table::BY_NAME;
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for c in t {{
        for (a, b) in *c {{
            write!(out, "{{a}}-{{b}} ").unwrap();
        }}
        writeln!(out).unwrap();
    }}
}}
"""
# Where temporary files may go.
PLACES = ["t", "Temporary Files", "Control", "Other_Letter, Unassigned", "it's $HOME;`id`", "é*[a-z]?", "-t & co #1", "t"]
FETCH_FAULTS = ["refused", "missing", "short", "page", "damaged", "reset"]
# What happens after all is printed, or part of it: a status, or a signal.
ENDS = ["1", "2", "101", "127", "128", "137", "255", "s9", "s15", "s6", "s13", "s1"]
# A tool that says it succeeded is believed, whatever it printed.
TOOL_FAULTS = ["fails", "dies", "none", *(f"late-{e}:79" for e in ENDS), *(f"cut-{e}:0" for e in ENDS[::3])]


def database(root, version, by_cat, r):
    """The archive of one version."""
    path = os.path.join(root, f"UCD-{version}.zip")
    lines = [f"# DerivedGeneralCategory-{version}.txt\n", "# Date: 2016-06-01, 10:34:26 GMT\n", "\n"]
    for c in ORDER:
        lines.append(f"# General_Category={c}\n\n")
        for a, b in by_cat[c]:
            if c != "Cn":
                lines.append(f"{a:04X} ; {c} # one\n" if a == b else f"{a:04X}..{b:04X} ; {c} # some\n")
    with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("ReadMe.txt", f"# Unicode {version}\n")
        z.writestr("UnicodeData.txt", "\n".join(f"{r.randrange(MAX):04X};X;Lu" for _ in range(50)))
        z.writestr("extracted/DerivedGeneralCategory.txt", "".join(lines))
        z.writestr("auxiliary/GraphemeBreakTest.txt", "÷ 0020 ÷ 0020 ÷\n")
    return path


def invented(r, n=None):
    """A database that never was, with every category in use."""
    n = n or r.choice([40, 200, 2000])
    cuts = sorted({0, MAX, *(r.choice([r.randrange(MAX + 1), r.randrange(3000)]) for _ in range(n))})
    cats = ORDER + [r.choice(ORDER) for _ in range(len(cuts))]
    cats = cats[:max(len(cuts), len(ORDER))]
    r.shuffle(cats)
    out = {c: [] for c in ORDER}
    for i, a in enumerate(cuts):
        b = cuts[i + 1] - 1 if i + 1 < len(cuts) else MAX
        mine = out[cats[i]]
        if mine and mine[-1][1] == a - 1:
            mine[-1] = (mine[-1][0], b)
        else:
            mine.append((a, b))
    return out if all(out.values()) else invented(r, n)


def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            path = os.path.join(d, f)
            try:
                with open(path, "rb") as x:
                    out[os.path.relpath(path, root)] = hashlib.sha256(x.read()).hexdigest()
            except FileNotFoundError:
                # Another run's, and gone by now.
                continue
    return out


class Bench:
    def __init__(self, run):
        self.run = run
        self.lock = threading.Lock()
        self.compiled = {}
        self.tables = {}
        self.bin = os.path.join(run.scratch, "bin")
        os.makedirs(self.bin)
        tool = os.path.join(self.bin, "ucd-generate")
        with open(tool, "w") as f:
            f.write(f'#!/bin/sh\nexec "{sys.executable}" -B "{GEN}/tool.py" "$@"\n')
        os.chmod(tool, 0o755)
        self.archives = os.path.join(run.scratch, "archives.json")

    def serve(self, databases, r):
        where = {}
        for v, by_cat in databases.items():
            self.tables[v] = by_cat
            where[v] = database(self.run.scratch, v, by_cat, r)
        with open(self.archives, "w") as f:
            json.dump(where, f)

    def generate(self, name, args, hashseed, tool, fetch="", prepare=None, below=None):
        """One run of the generator in a directory of its own unless it exists: what it was before and after."""
        cwd = os.path.join(self.run.scratch, name)
        os.makedirs(os.path.join(cwd, "w"), exist_ok=True)
        place = os.path.join(cwd, below or PLACES[hashseed % len(PLACES)])
        os.makedirs(place, exist_ok=True)
        if prepare:
            prepare(os.path.join(cwd, "w"))
        before = snapshot(os.path.join(cwd, "w"))
        path = "/usr/bin:/bin" if tool == "none" else self.bin + ":/usr/bin:/bin"
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PATH=path, PYTHONHASHSEED=str(hashseed), TMPDIR=place, VERIF_TOOL=tool, VERIF_FETCH=fetch,
                   PYTHONDONTWRITEBYTECODE="1", HOME=cwd)
        log = os.path.join(cwd, "log-" + "-".join(args))
        if os.path.exists(log):
            os.remove(log)
        try:
            p = subprocess.run([sys.executable, "-B", os.path.join(GEN, "driver.py"), self.archives, log, SCRIPT, *args],
                               cwd=os.path.join(cwd, "w"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=300)
        except subprocess.TimeoutExpired as e:
            raise Inconclusive(f"the generator took longer than 300 s: {args}") from e
        after = snapshot(os.path.join(cwd, "w"))
        fetched = open(log).read().split() if os.path.exists(log) else []
        return cwd, before, after, p, fetched

    def compile(self, path, text):
        """What the compiled table holds, or the compiler's complaint."""
        body = b"\n".join(x for x in text.splitlines() if not x.startswith(b"//"))
        key = hashlib.sha256(body).hexdigest()
        with self.lock:
            mine = key not in self.compiled
            if mine:
                self.compiled[key] = threading.Event()
            entry = self.compiled[key]
        if not mine:
            if isinstance(entry, threading.Event):
                entry.wait()
                entry = self.compiled[key]
            return entry
        result = "not compiled"
        try:
            d = os.path.join(self.run.scratch, "compile-" + key[:12])
            os.makedirs(d)
            with open(os.path.join(d, "main.rs"), "w") as f:
                f.write(MAIN.format(path=json.dumps(path)))
            rustc = ["rustc", "--edition", "2021", "-A", "warnings", "-o", os.path.join(d, "main"), os.path.join(d, "main.rs")]
            try:
                p = common.sh(rustc, 150, env=common.cargo_env())
            except Inconclusive:
                p = common.sh(rustc, 300, env=common.cargo_env())
            if p.returncode != 0:
                result = f"does not compile: {p.stdout[:1500]}"
            else:
                q = subprocess.run([os.path.join(d, "main")], stdout=subprocess.PIPE, text=True, timeout=60, check=True)
                result = [[tuple(map(int, x.split("-"))) for x in line.split()] for line in q.stdout.splitlines()]
            shutil.rmtree(d)
        finally:
            with self.lock:
                self.compiled[key] = result
            entry.set()
        return result


def clutter(r, version):
    """Something to find in the directory."""
    kind = r.randrange(6)
    name = f"v{version.replace('.', '_')}.rs"

    def prepare(root):
        if kind == 0:
            return
        tables = os.path.join(root, "src", "tables")
        os.makedirs(os.path.join(root, "src") if kind == 1 else tables)
        if kind >= 3:
            with open(os.path.join(tables, name), "wb") as f:
                f.write((b"pub const OLD: u32 = 1;\n" + b"// Nothing.\n" * 20_000) * r.choice([1, 25]))
        if kind >= 4:
            for other in ("v1_0_0.rs", "mod.rs", "v15_0_0.rs.bak", "notes.txt", "v170_0_0.rs"):
                with open(os.path.join(tables, other), "w") as f:
                    f.write(f"// {other} {r.random()}\n")
            with open(os.path.join(root, "src", "lib.rs"), "w") as f:
                f.write("mod tables;\n")
            os.makedirs(os.path.join(root, "tables"))
            with open(os.path.join(root, "tables", name), "w") as f:
                f.write("// elsewhere\n")
    return prepare


def tampered(r, version):
    """Spoil the table in place: what is there is no reason not to write."""
    name = f"v{version.replace('.', '_')}.rs"
    kind = r.choice(["digits", "digits", "digits", "cut", "more", "empty", "swapped", "body"])
    age = r.choice([0, 0, -10 ** 6, 10 ** 6, 10 ** 9, None])

    def prepare(root):
        path = os.path.join(root, "src", "tables", name)
        at = os.stat(path)
        with open(path, "rb") as f:
            text = f.read()
        numbers = [m.span() for m in re.finditer(rb"(?<=[ (,])\d+(?=[,)])", text)]
        if kind == "digits" and numbers:
            out = bytearray(text)
            for a, b in r.sample(numbers, min(len(numbers), r.choice([1, 2, 50]))):
                out[b - 1] = ord("0") + (out[b - 1] - ord("0") + r.randrange(1, 10)) % 10
            text = bytes(out)
        elif kind == "cut":
            text = text[:r.randrange(len(text))]
        elif kind == "more":
            text += r.choice([b" ", b"\n", b"// More.\n", b"pub const MORE: u32 = 1;\n", text])
        elif kind == "empty":
            text = b""
        elif kind == "swapped" and len(numbers) > 1:
            (a, b), (c, d) = sorted(r.sample(numbers, 2))
            text = text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]
        else:
            head, _, rest = text.partition(b"pub ")
            text = head + b"pub " + b" " * max(0, len(rest) - 1) + b"\n"
        with open(path, "wb") as f:
            f.write(text)
        if age is not None:
            os.utime(path, ns=(at.st_atime_ns, at.st_mtime_ns + age * 10 ** 9))
    return kind, prepare


def judge(bench, version, done, what, apart=()):
    cwd, before, after, p, fetched = done
    out = []
    name = f"src/tables/v{version.replace('.', '_')}.rs"
    if p.returncode != 0:
        return [f"{what} failed: {p.stderr[-1500:]}"]
    if name not in after:
        return [f"{what} wrote no {name}, but {sorted(set(after) - set(before))}"]
    rest = {k for k in {*before, *after} - {name, *apart} if before.get(k) != after.get(k)}
    if rest:
        out.append(f"{what} changed other files: {sorted(rest)}")
    path = os.path.join(cwd, "w", name)
    with open(path, "rb") as f:
        text = f.read()
    got = bench.compile(path, text)
    want = [bench.tables[version][c] for c in ORDER]
    if isinstance(got, str):
        out.append(f"{what} wrote a table that {got}")
    elif got != want:
        if len(got) != len(want):
            out.append(f"{what} wrote a table of {len(got)} entries")
        else:
            i = next(i for i in range(len(want)) if got[i] != want[i])
            diff = sorted(set(got[i]) ^ set(want[i]))[:6]
            out.append(f"{what} wrote other intervals for {ORDER[i]}: {len(got[i])} for {len(want[i])}, differing in {diff}")
    if not fetched:
        out.append(f"{what} fetched nothing")
    return out


def check(run):
    run.rule = ("The generator run in scratch directories with the network served from golden and invented databases and a stand-in "
                "for ucd-generate that lays out lines in many ways; tables compiled and read back. Distinct: version, hash seed, "
                "layout and prior content.")
    run.assumptions = ["the stand-in's output has ucd-generate's form: an entry is never broken between lines",
                       "the golden data (harness/golden/gc.txt) is the Unicode Character Database's"]
    if not os.path.exists(SCRIPT):
        raise Inconclusive(f"no {SCRIPT}")
    r = random.Random(run.seed * 7919 + 5)
    bench = Bench(run)
    golden = pymon.Golden()
    databases = {v: dict(golden.by_cat[v]) for v in pymon.VERSIONS}
    made = ["4.1.0", "18.0.0", "100.20.3", "20.1.3", "9.0.1", "8.0.0", "17.1.0", "12.1.1"]
    made = made[:run.amount(5, 8)]
    while len(made) < run.amount(8, 30):
        v = ".".join(str(r.randrange(x)) for x in (r.choice([10, 40, 1000]), r.choice([2, 30]), r.choice([2, 30])))
        if v not in databases and v not in made:
            made.append(v)
    for v in made:
        databases[v] = invented(r)
    # Far more than any version had.
    huge = "99.0.0"
    databases[huge] = invented(r, run.amount(250_000, 500_000))
    bench.serve(databases, r)
    ordinary = [v for v in databases if v != huge]
    jobs = []
    for i, v in enumerate(databases):
        for k in range(2 if v == huge else run.amount(5, 150)):
            layout = [0, 79, 100, 10_000, r.randrange(30, 300)][k % 5]
            seed = r.choice([0, 1, r.randrange(1 << 32)])
            jobs.append(("good", v, seed, f"{'noisy' if i % 4 == k else 'ok'}:{layout}", "", clutter(r, v)))
    for k in range(run.amount(2, 40)):
        for fault in FETCH_FAULTS:
            v = r.choice(list(databases))
            jobs.append(("fetch", v, r.randrange(1 << 32), f"ok:{r.choice([0, 79])}", fault, clutter(r, v)))
        for fault in TOOL_FAULTS:
            v = r.choice(list(databases))
            jobs.append(("tool", v, r.randrange(1 << 32), fault, "", clutter(r, v)))

    def one(job):
        i, (kind, v, seed, tool, fetch, prepare) = job
        if bench.run.violations:
            return
        what = f"generating {v} (hash seed {seed}, tool {tool}, fetch {fetch or 'works'}, below {PLACES[seed % len(PLACES)]!r})"
        done = bench.generate(f"g{i}", [v], seed, tool, fetch, prepare)
        cwd, before, after, p, fetched = done
        if kind == "good":
            bad = judge(bench, v, done, what)
        else:
            changed = {k for k in {*before, *after} if before.get(k) != after.get(k)}
            bad = [f"{what} wrote {sorted(changed)} although it failed"] if changed else []
        with bench.lock:
            run.violations += bad
            run.evaluations += 1
            run.distinct += 1
            label = {"good": "tables generated", "fetch": "failing fetches", "tool": "failing tools"}[kind]
            run.classes[label] = run.classes.get(label, 0) + 1
            if fetched:
                run.classes["databases fetched"] = run.classes.get("databases fetched", 0) + 1
            if i % 17 == 0:
                run.samples.append(f"{what}: exit {p.returncode}, {len(before)} files before")
        shutil.rmtree(cwd)

    def history(i):
        """Runs one after another in one place, some failing, and at the end two at once."""
        h = random.Random(run.seed * 104_729 + i)
        spoilt = collections.Counter()
        name, bad, n, said, below = f"h{i}", [], 0, [], PLACES[i % len(PLACES)]
        for step in range(h.randrange(2, 5)):
            v = h.choice(ordinary)
            kind = h.choice(["good", "good", "fetch", "tool"])
            tool = h.choice(TOOL_FAULTS) if kind == "tool" else f"ok:{h.choice([0, 79, 120])}"
            fetch = h.choice(FETCH_FAULTS) if kind == "fetch" else ""
            said.append(f"{v} ({kind}: {tool} {fetch})")
            what = f"generating, in one place, {', then '.join(said)}"
            done = bench.generate(name, [v], h.randrange(1 << 32), tool, fetch, below=below)
            n += 1
            if kind == "good":
                bad += judge(bench, v, done, what)
                if not bad and h.random() < 0.7:
                    how, prepare = tampered(h, v)
                    said.append(f"{v} over a spoilt table ({how})")
                    again = bench.generate(name, [v], h.randrange(1 << 32), tool, "", prepare, below=below)
                    n += 1
                    bad += judge(bench, v, again, f"generating, in one place, {', then '.join(said)}")
                    spoilt[how] += 1
            elif done[1] != done[2]:
                bad.append(f"{what} wrote {sorted(k for k in done[2] if done[1].get(k) != done[2][k])} although it failed")
        pair = h.sample(ordinary, 2)
        root = os.path.join(run.scratch, name, "w")
        before = snapshot(root)
        both = common.parallel(*[lambda v=v: bench.generate(name, [v], 0, "ok:79", below=below) for v in pair])
        # What was there while both ran may be either's.
        both = [(cwd, before, snapshot(root), p, fetched) for cwd, _, _, p, fetched in both]
        files = [f"src/tables/v{v.replace('.', '_')}.rs" for v in pair]
        for v, done, other in zip(pair, both, reversed(files)):
            n += 1
            bad += judge(bench, v, done, f"generating {' and '.join(pair)} at the same time", [other])
        with bench.lock:
            run.violations += bad
            run.evaluations += n
            run.distinct += n
            run.classes["runs in one place"] = run.classes.get("runs in one place", 0) + n
            for how, k in spoilt.items():
                how = f"runs over a spoilt table ({how})"
                run.classes[how] = run.classes.get(how, 0) + k
        shutil.rmtree(os.path.join(run.scratch, name))

    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, enumerate(jobs)))
        if not run.violations:
            list(pool.map(history, range(run.amount(10, 300))))
    # Without a version there is nothing to do.
    for args in ([], ["16.0.0", "17.0.0"]):
        cwd, before, after, p, fetched = bench.generate(f"usage{len(args)}", args, 0, "ok:79")
        run.evaluations += 1
        if before != after:
            run.violation(f"the generator called with {args} wrote {sorted(after)}")
    run.commands.append("python3 generate_tables.py VERSION, with gen/driver.py for the network and gen/tool.py for ucd-generate")
    run.classes["distinct tables compiled"] = len(bench.compiled)
    if not run.violations and run.classes.get("tables generated", 0) < 60:
        raise Inconclusive(f"only {run.classes} observed")
