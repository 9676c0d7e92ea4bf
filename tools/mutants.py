#!/usr/bin/env python3
"""mutants.py PKG REGEX FILE [MAX]: single-point changes of /repo/FILE against
harness package PKG's tests REGEX (through an overlay; /repo stays as it is).
Prints the survivors. A development aid: no check uses it."""
import json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from check import go_env, HARNESS

pkg, regex, rel = sys.argv[1:4]
maxn = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
env = go_env()
go = env.get("GO126") or "/opt/veriftools/go1.26.10/bin/go"
here = os.path.dirname(os.path.abspath(__file__))
work = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
os.chmod(work, 0o755)
tool = os.path.join(work, "mutate")
subprocess.run([go, "build", "-o", tool, "main.go"], cwd=os.path.join(here, "mutate"), env={**env, "GOWORK": "off"}, check=True)
src = os.path.join("/repo", rel)
ms = [l.split(" ", 2) for l in subprocess.run([tool, src], capture_output=True, text=True, check=True).stdout.splitlines()]
if len(ms) > maxn:
    random.seed(1)
    ms = sorted(random.sample(ms, maxn), key=lambda m: int(m[0]))

def one(m):
    d = os.path.join(work, m[0])
    os.mkdir(d)
    os.chmod(d, 0o777)
    try:
        f = os.path.join(d, "m.go")
        subprocess.run([tool, src, m[0], f], check=True)
        ov = os.path.join(d, "o.json")
        json.dump({"Replace": {src: f}}, open(ov, "w"))
        b = os.path.join(d, "t.test")
        p = subprocess.run([go, "test", "-c", "-vet=off", "-overlay", ov, "-o", b, "."], cwd=os.path.join(HARNESS, pkg), env=env, capture_output=True)
        if p.returncode:
            return m, "nobuild"
        for seed in map(int, os.environ.get("MUT_SEEDS", "1 2 3").split()):
            try:
                p = subprocess.run([b, "-test.run", regex, f"-rapid.seed={seed}", "-rapid.nofailfile", "-test.failfast", "-rapid.shrinktime=1s"], cwd=d, user=65534, group=65534, extra_groups=[],
                                   env={"TMPDIR": d, "PATH": "/usr/bin:/bin", "HOME": d, "VT_KNOWN": os.environ.get("VT_KNOWN", ""), "VT_BUDGET_S": os.environ.get("VT_BUDGET_S", "40")}, capture_output=True, timeout=300)
                if p.returncode:
                    return m, "killed"
            except subprocess.TimeoutExpired:
                return m, "timeout"
        return m, "SURVIVED"
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)

n = {}
with ThreadPoolExecutor(6) as ex:
    for m, r in ex.map(one, ms):
        n[r] = n.get(r, 0) + 1
        if r in ("SURVIVED", "timeout"):
            print(r, f"{rel}:{m[1]}", m[2], flush=True)
print(rel, n)
shutil.rmtree(work, ignore_errors=True)
