"""Building, running and judging, shared by all checks."""
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TARGET = "x86_64-unknown-linux-gnu"

MODULES = {f"C{i:02}": "core" for i in range(1, 15)}
MODULES.update({"C05": "conc", "C15": "mixed", "C16": "internals", "C17": "cost", "C18": "memory", "C19": "life", "G01": "generator"})
MODULES.update({f"P{i:02}": "binding" for i in range(1, 8)})
MODULES.update({"P08": "pycost", "P09": "binding"})

# Ways to die that only the code under test can be responsible for.
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


class Inconclusive(Exception):
    """Neither held nor violated."""


class Run:
    """One check run: what was observed, and the verdict."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED") or 1)
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        self.started = time.monotonic()
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.classes = {}
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.commands = []
        self.known = []
        os.makedirs(BUILD, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")

    def amount(self, quick, thorough):
        return thorough if self.thorough else quick

    def absorb(self, result, floor=0):
        """Take over what a monitor reported."""
        self.evaluations += result["evaluations"]
        self.distinct += result["distinct_nontrivial"]
        for k, v in result.get("classes", {}).items():
            self.classes[k] = self.classes.get(k, 0) + v
        self.samples += result.get("samples", [])
        for v in result["violations"]:
            self.violation(v)
        if not result["violations"] and result["evaluations"] < floor:
            raise Inconclusive(f"only {result['evaluations']} executions observed, {floor} expected")

    def violation(self, text):
        self.violations.append(text)

    def finish(self):
        known = load_known(self.prop)
        fresh = []
        for v in self.violations:
            hit = next((k for k in known if k in v), None)
            if hit is None:
                fresh.append(v)
            else:
                self.known.append(hit)
        for k in known:
            # Listed findings are named whether or not this run came across them.
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct,
            "rule": self.rule,
            "samples": [s if len(s) < 400 else s[:400] + "..." for s in map(str, self.samples[:12])],
            "observed": dict(sorted(self.classes.items())),
            **self.extra,
        }
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.monotonic() - self.started, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if not fresh:
            if not self.evaluations or not self.distinct:
                raise Inconclusive("nothing was observed")
            print(
                f"{self.prop}: held on {self.evaluations} executions, {self.distinct} distinct cases "
                f"({evidence['wall_s']} s)"
            )
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{self.prop}-{self.tier}-{self.seed}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": fresh,
                 "commands": self.commands,
                 "how": "[stage:block:operation] names the failing step; add --only STAGE:BLOCK --trace to a "
                        "harness command to watch it"},
                f, indent=1)
            f.write("\n")
        for v in fresh[:5]:
            print(f"{self.prop}: {v[:2000]}")
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return 1


def load_known(prop):
    """Open findings of a property: the text that identifies each."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith(f"open: property={prop} "):
                    out.append(line.split(" ", 2)[2])
    return out


def cargo_env(**more):
    env = dict(os.environ)
    # RUSTFLAGS and friends from outside must not change what is observed.
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env.update(more)
    return env


def sh(cmd, timeout, **kw):
    """Run a tool that is not under observation; returns the completed process."""
    try:
        return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                              errors="replace", **kw)
    except subprocess.TimeoutExpired as e:
        raise Inconclusive(f"{cmd[:6]} took longer than {timeout} s") from e


def build(crate, profile="release", toolchain=None, rustflags="", extra=(), tag=None, fail=True, package=None):
    """Build a harness crate against /repo's working tree; returns the directory of its programs."""
    tag = tag or f"{os.path.basename(crate)}-{profile}"
    out = os.path.join(BUILD, tag)
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "--profile", profile, *extra]
    p = sh(cmd, 800, cwd=crate, env=cargo_env(CARGO_TARGET_DIR=out, RUSTFLAGS=rustflags))
    if p.returncode != 0:
        if not fail:
            return None, p.stdout
        raise Inconclusive(f"building {tag} failed:\n{p.stdout[-6000:]}")
    sub = "debug" if profile == "dev" else profile
    d = os.path.join(out, TARGET, sub) if any("--target" in x for x in extra) else os.path.join(out, sub)
    return (d, p.stdout) if not fail else d


def parallel(*jobs):
    """Run jobs at the same time; the first exception wins."""
    results, errors = [None] * len(jobs), []

    def work(i, job):
        try:
            results[i] = job()
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    threads = [threading.Thread(target=work, args=(i, j)) for i, j in enumerate(jobs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    if errors:
        raise errors[0]
    return results


def limits(memory):
    def apply():
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return apply


def describe_journal(path):
    """What each worker was doing when the process died."""
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError:
        return []
    out = []
    for i in range(len(data) // 32):
        stage, block, op, busy = (int.from_bytes(data[i * 32 + j * 8:i * 32 + j * 8 + 8], sys.byteorder) for j in range(4))
        if busy:
            out.append(f"worker {i}: stage {stage:#x} block {block} operation {op}")
    return out


def run_group(cmd, timeout, **more):
    """As subprocess.run, but what the command started goes with it when its time is up."""
    with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                          start_new_session=True, **more) as p:
        try:
            out, err = p.communicate(timeout=timeout)
        except BaseException:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def observe(run, cmd, timeout=None, memory=12 << 30, env=None, name=None, seed=None, journal=True, cwd=None,
            reports=()):
    """Run a monitor that writes its result with --out; absorb nothing, return the result.

    Dying by a signal the code under test causes, or a sanitizer's report, is a violation; anything else
    unexpected is no verdict.
    """
    name = name or "m"
    out = os.path.join(run.scratch, f"{name}.json")
    log = os.path.join(run.scratch, f"{name}.journal")
    cmd = [*cmd, "--seed", str(run.seed if seed is None else seed), "--tier", run.tier]
    full = [*cmd, "--out", out, *(["--journal", log] if journal else [])]
    run.commands.append(" ".join(cmd))
    timeout = timeout or run.amount(300, 6 * 3600)
    try:
        p = run_group(full, timeout, preexec_fn=limits(memory), env=env, cwd=cwd)
    except subprocess.TimeoutExpired as e:
        # These take seconds; nothing but the code under test can hold them up this long.
        where = "; ".join(describe_journal(log)) or "no operation recorded"
        return {"evaluations": 1, "distinct_nontrivial": 1, "violations": [
            f"{' '.join(cmd)} did not finish in {timeout} s ({where}): {(e.stderr or b'')[-1500:]!r}"]}
    hit = next((m for m in reports if m in p.stderr), None)
    if hit is not None:
        at = max(p.stderr.find(hit) - 200, 0)
        where = "; ".join(describe_journal(log)) or "no operation recorded"
        return {"evaluations": 1, "distinct_nontrivial": 1,
                "violations": [f"reported in {' '.join(cmd)} ({where}): {p.stderr[at:at + 3000]}"]}
    if p.returncode < 0 and -p.returncode in CRASHES:
        name = signal.Signals(-p.returncode).name
        where = describe_journal(log)
        return {"evaluations": 1, "distinct_nontrivial": 1, "violations": [
            f"the process died of {name} ({'; '.join(where) or 'no operation recorded'}): {p.stderr[-1500:]}"]}
    if not os.path.exists(out):
        raise Inconclusive(f"{cmd} exited with {p.returncode} and no result: {p.stderr[-3000:]}")
    with open(out) as f:
        result = json.load(f)
    if p.returncode not in (0, 1) or (p.returncode == 1) != bool(result["violations"]):
        raise Inconclusive(f"{cmd} exited with {p.returncode}: {p.stderr[-3000:]}")
    result["stderr"] = p.stderr
    return result


def setup():
    """Nothing is kept between runs; just see that the tools are there."""
    ok = True
    for tool in ("cargo", "rustc", "valgrind", "python3"):
        if not shutil.which(tool):
            print(f"missing: {tool}")
            ok = False
    return 0 if ok else 2
