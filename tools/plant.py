"""Try planted changes in copies of /repo: `plant.py [--workers N] [--checks C01,P02|own|none|all] [ID...]`.

Each worker has a private mount namespace in which copies of /repo, /verif and /opt/vp lie over the originals; nothing
outside /tmp/plant is written. For each change: the demonstration passes on the clean tree; with the patch the tree builds,
the stable tests pass, the demonstration fails; then the checks named run with it.
"""
import argparse
import json
import os
import queue
import shutil
import subprocess
import sys
import threading

ROOT = os.environ.get("PLANT_ROOT", "/tmp/plant")
VERIF = os.environ.get("PLANT_VERIF", "/verif")
SEEDED = f"{VERIF}/seeded"


def inside(base, script, timeout):
    """Run a shell script where the copies lie over the originals."""
    pre = "".join(f"mount --bind {base}/{n} {t} && " for n, t in (("repo", "/repo"), ("verif", "/verif"), ("vp", "/opt/vp")))
    cmd = ["unshare", "-m", "--propagation", "private", "bash", "-c", f"{pre} cd /repo && {script}"]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else str(e.stdout)


def prepare(i):
    base = f"{ROOT}/{i}"
    os.makedirs(base, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/opt/vp", "vp"), (VERIF, "verif")):
        subprocess.run(["rsync", "-a", "--delete", f"{src}/", f"{base}/{name}/"] if shutil.which("rsync") else
                       ["bash", "-c", f"mkdir -p {base}/{name} && cp -a -u {src}/. {base}/{name}/"], check=True)
    subprocess.run(["git", "-C", f"{base}/repo", "checkout", "-q", "--", "."], check=True)
    return base


def trial(base, bug, checks, seed, quick):
    out = {"id": bug}
    src = f"{SEEDED}/{bug}"
    meta = json.load(open(f"{src}/meta.json"))
    demo = f"{base}/demo-{bug}"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    if not quick:
        rc, text = inside(base, f"git checkout -q -- . && bash /opt/vp/build.sh >/dev/null 2>&1; bash {demo}/demo.sh", 900)
        out["clean demo"] = rc
        if rc != 0:
            out["why"] = text[-1500:]
            return out
    rc, text = inside(base, f"git apply --check {src}/patch.diff && git apply {src}/patch.diff", 60)
    if rc != 0:
        out["why"] = f"does not apply: {text}"
        return out
    try:
        rc, text = inside(base, "bash /opt/vp/build.sh", 900)
        out["build"] = rc
        if rc != 0:
            out["why"] = text[-2500:]
            return out
        if not quick:
            rc, text = inside(base, f"bash /opt/vp/test.sh {base}/out.json", 900)
            got = json.load(open(f"{base}/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(got.get("passed") or [k for k, v in got.get("tests", got).items() if v in ("passed", "pass", True)])
            out["tests failing"] = [t for t in stable if t not in passed]
            rc, text = inside(base, f"bash {demo}/demo.sh", 300)
            out["demo"] = rc
            out["demo says"] = text[-300:]
            if out["tests failing"] or rc == 0:
                return out
        ids = [meta["property"]] if checks == "own" else [] if checks == "none" else checks.split(",")
        if checks == "all":
            ids = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        for c in ids:
            rc, text = inside(base, f"cd /verif && VERIF_SEED={seed} VERIF_TIER=quick timeout 900 python3 check.py {c}", 1000)
            caught = rc == 1 and f"VIOLATION property={c} " in text
            out.setdefault("checks", {})[c] = "caught" if caught else f"rc {rc}" if rc else "quiet"
            if c == meta["property"]:
                out["said"] = text[-600:]
    finally:
        subprocess.run(["git", "-C", f"{base}/repo", "checkout", "-q", "--", "."], check=True)
        shutil.rmtree(demo, ignore_errors=True)
    return out


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--workers", type=int, default=3)
    p.add_argument("--checks", default="own")
    p.add_argument("--seed", default="1")
    p.add_argument("--quick", action="store_true", help="only the checks")
    p.add_argument("--log", default=f"{ROOT}/results.jsonl")
    p.add_argument("ids", nargs="*")
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(SEEDED))
    os.makedirs(ROOT, exist_ok=True)
    todo = queue.Queue()
    for i in ids:
        todo.put(i)
    lock = threading.Lock()

    def work(n):
        base = prepare(n)
        while True:
            try:
                bug = todo.get_nowait()
            except queue.Empty:
                return
            try:
                out = trial(base, bug, a.checks, a.seed, a.quick)
            except Exception as e:  # noqa: BLE001
                out = {"id": bug, "error": repr(e)}
            with lock:
                with open(a.log, "a") as f:
                    f.write(json.dumps(out) + "\n")
                good = out.get("clean demo", 0) == 0 and out.get("build") == 0 and not out.get("tests failing") and out.get("demo", 1)
                print(bug, "VALID" if good and "why" not in out and "error" not in out else "INVALID", out.get("checks", ""),
                      "" if good else {k: v for k, v in out.items() if k not in ("id",)}, flush=True)
                if good and any(v != "caught" for v in out.get("checks", {}).values()):
                    print("   ", out.get("said", "")[-400:], flush=True)

    threads = [threading.Thread(target=work, args=(n,)) for n in range(min(a.workers, len(ids)))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return 0


sys.exit(main())
