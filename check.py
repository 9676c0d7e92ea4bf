#!/usr/bin/env python3
"""Runs the check of one property: builds its Go test binary from /repo's
working tree, drives it with the seed and tier of the environment, writes
evidence/<id>.json and answers with the exit status MANIFEST.json promises.

  check.py ID                 0 held, 1 VIOLATION, anything else: no answer
  check.py ID --replay FILE   runs the recorded case again
  check.py --build            builds every binary once (setup)
"""
import json, os, pwd, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
LIMIT = {"quick": 780, "thorough": 3300}
# Failures of the sandbox, not of the code under test.
ENV_TROUBLE = re.compile(
    r"no space left on device|cannot allocate memory|out of memory|too many open files|"
    r"resource temporarily unavailable|newosproc|VT-ENV")


def die(code, msg):
    print(msg, flush=True)
    sys.exit(code)


def go_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                             capture_output=True, check=True).stdout.decode()
        env.update(kv.split("=", 1) for kv in out.split("\0") if "=" in kv)
    except Exception:
        pass
    env["GOWORK"] = os.path.join(HARNESS, "go.work")
    env["GOTOOLCHAIN"] = "local"
    env["GOFLAGS"] = "-mod=readonly"
    env["GOPROXY"] = "off"
    return env


def build(pkg, mode, out, env):
    """mode: False, True (with the race detector) or the fuzz target to instrument for."""
    go = env.get("GO126") or "/opt/veriftools/go1.26.10/bin/go"
    cmd = [go, "test", "-c", "-o", out] + (["-race"] if mode is True else ["-fuzz=" + mode] if mode else []) + ["."]
    p = subprocess.run(cmd, cwd=os.path.join(HARNESS, pkg), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    return p.returncode, p.stdout.decode(errors="replace")


def known_keys(pid):
    keys = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3)
    return keys


class Proc:
    """One run of a test binary, in its own session and scratch directory."""

    def __init__(self, work, binary, args, seed, tier, keys, user, timeout, budget):
        self.dir = tempfile.mkdtemp(prefix="run-", dir=work)
        self.out = os.path.join(self.dir, "out")
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.out)
        os.mkdir(self.tmp)
        if user:
            for d in (self.dir, self.out, self.tmp):
                os.chown(d, user.pw_uid, user.pw_gid)
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.tmp, "TMPDIR": self.tmp,
            "VT_OUT": self.out, "VERIF_TIER": tier, "VERIF_SEED": str(seed),
            "VT_KNOWN": ",".join(keys), "GORACE": "halt_on_error=0",
        }
        if budget:
            env["VT_BUDGET_S"] = str(budget)
        self.log = os.path.join(self.dir, "log")
        kw = {}
        if user:
            kw = dict(user=user.pw_uid, group=user.pw_gid, extra_groups=[])
        self.deadline = time.time() + timeout
        self.p = subprocess.Popen(
            [binary, f"-rapid.seed={seed}", "-test.timeout=0"] + args,
            cwd=self.dir, env=env, stdout=open(self.log, "wb"), stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, start_new_session=True, **kw)

    def wait(self):
        try:
            self.rc = self.p.wait(max(1, self.deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.rc = None
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.text = open(self.log, errors="replace").read()
        return self


def mode_of(run):
    return run.get("fuzz") or run.get("race", False)


def args_of(run):
    if "fuzz" in run:
        # all cores, the corpus in the run's own directory
        return ["-test.run=^$", f"-test.fuzz=^{run['fuzz']}$", f"-test.fuzztime={run['seconds']}s", "-test.fuzzcachedir=corpus", "-test.parallel=4"]
    return [f"-test.run={run['run']}"]


def fail_files(d):
    out = []
    for base, _, names in os.walk(os.path.join(d, "testdata")):
        out += [os.path.join(base, n) for n in names
                if n.endswith(".fail") or os.path.basename(os.path.dirname(base)) == "fuzz"]
    return sorted(out)


def fuzz_report(run, text):
    """What a run of go's fuzzer says of itself, as a report like vt's."""
    execs = [int(n) for n in re.findall(r"execs: (\d+)", text)]
    total = [int(n) for n in re.findall(r"\(total: (\d+)\)", text)]
    if not execs:
        return None
    return {"test": run["fuzz"], "rule": "one input made by coverage-guided mutation; non-trivial: it reached code no input before it did, and is kept",
            "evaluations": execs[-1], "hashes": [f"{run['fuzz']}-{i}" for i in range(max(total, default=0))],
            "not_run_for_budget": 0, "labels": {}, "samples": [text.strip().splitlines()[-2][:200]]}


def save_replay(pid, proc, run, seed):
    os.makedirs(REPLAYS, exist_ok=True)
    stamp = f"{pid}-seed{seed}-{int(time.time())}-{os.getpid()}"
    names = []
    for f in fail_files(proc.dir):
        test = os.path.basename(os.path.dirname(f))  # or the fuzz target's name
        dst = os.path.join(REPLAYS, f"{stamp}-{test}.fail")
        shutil.copyfile(f, dst)
        names.append(dst)
    log = os.path.join(REPLAYS, stamp + ".log")
    with open(log, "w") as w:
        w.write(f"# {pid}: package {run['pkg']}, seed {seed}\n")
        for n in names:
            w.write(f"# replay: python3 {HERE}/check.py {pid} --replay {n}\n")
        w.write(proc.text[:400000])
    return names[0] if names else log


def verdict(proc):
    """held / violation / hang / noanswer"""
    t = proc.text
    if proc.rc == 0:
        return "held"
    if proc.rc is None:
        return "noanswer"
    if ENV_TROUBLE.search(t):
        return "noanswer"
    if proc.rc == 97 and "VT-HANG" in t:
        return "hang"
    if "WARNING: DATA RACE" in t or re.search(r"^\s*--- FAIL", t, re.M):
        return "violation"
    if re.search(r"^(panic:|fatal error:)", t, re.M) and "go-fsys-helper/" in t:
        return "violation"
    return "noanswer"


def main():
    if len(sys.argv) < 2:
        die(2, __doc__)
    env = go_env()
    if sys.argv[1] == "--build":
        work = tempfile.mkdtemp(prefix="verif-build-")
        bad = 0
        try:
            for pkg, race in sorted({(r["pkg"], mode_of(r)) for c in CHECKS.values() for r in c["runs"] if "fuzz" not in r}):
                rc, out = build(pkg, race, os.path.join(work, "t"), env)
                print(f"build {pkg}{' -race' if race else ''}: {'ok' if rc == 0 else out}", flush=True)
                bad |= rc
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(1 if bad else 0)

    pid = sys.argv[1]
    check = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    start = time.time()
    hard = start + LIMIT[tier]
    keys = known_keys(pid)
    try:
        user = pwd.getpwnam("nobody") if os.geteuid() == 0 else None
    except KeyError:
        user = None
    if os.geteuid() == 0 and user is None:
        die(2, "no unprivileged user to run the check as")
    work = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.chmod(work, 0o755)
    scratch = work
    try:
        # many small files: a memory file system is several times as fast
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 2 << 30:
            scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-", dir="/dev/shm")
            os.chmod(scratch, 0o755)
    except OSError:
        scratch = work
    reports, shown, problems = [], set(), []
    violation = None
    try:
        bins = {}
        # coverage-guided runs are for the thorough tier, and for replaying what they found
        runs = [r for r in check["runs"] if "fuzz" not in r or tier == "thorough" or replay and r["fuzz"] in replay]
        for i, run in enumerate(runs):
            k = (run["pkg"], mode_of(run))
            if k not in bins:
                bins[k] = os.path.join(work, f"t{i}.test")
                rc, out = build(k[0], k[1], bins[k], env)
                if rc != 0:
                    die(2, f"build failed:\n{out}")
                os.chmod(bins[k], 0o755)
        procs = []
        if replay:
            test = re.search(r"-((?:Test|Fuzz)\w+)\.fail$", replay)
            if not test:
                die(2, f"{replay}: not a .fail file; a .log holds the recorded run")
            for run in runs:
                if run.get("fuzz") == test.group(1):
                    with tempfile.TemporaryDirectory(dir=work) as d:
                        corpus = os.path.join(d, "testdata", "fuzz", run["fuzz"])
                        os.makedirs(corpus)
                        shutil.copyfile(replay, os.path.join(corpus, "case"))
                        subprocess.run(["chmod", "-R", "a+rX", d])
                        p = subprocess.run([bins[(run["pkg"], mode_of(run))], f"-test.run=^{run['fuzz']}$/^case$", "-test.v"], cwd=d,
                                           user=user and user.pw_uid, group=user and user.pw_gid, extra_groups=[] if user else None)
                    sys.exit(1 if p.returncode else 0)
                if not re.search(run["run"], test.group(1)):
                    continue
                f = os.path.join(work, "replay.fail")
                shutil.copyfile(replay, f)
                os.chmod(f, 0o644)
                pr = Proc(scratch, bins[(run["pkg"], mode_of(run))],
                          [f"-test.run=^{test.group(1)}$", "-rapid.nofailfile", "-test.v", f"-rapid.failfile={f}"],
                          max(seed, 1), tier, keys, user, hard - time.time(), None).wait()
                print(pr.text)
                sys.exit({"held": 0, "violation": 1}.get(verdict(pr), 2))
            die(2, f"{replay}: no such test in {pid}")
        for run in runs:
            shards = run.get("shards", 1)
            for sh in range(shards):
                # a rapid seed of 0 means "pick one": keep it away from 0
                s = ((seed * 1000003 + sh * 7919) & 0x7FFFFFFF) or 1
                budget = run.get("budget", {}).get(tier)
                procs.append((run, s, lambda run=run, s=s, budget=budget: Proc(
                    scratch, bins[(run["pkg"], mode_of(run))], args_of(run),
                    s, tier, keys, user, hard - time.time(), budget)))
        # up to `par` processes side by side
        par = check.get("par", 8)
        pending, live = list(procs), []
        done = []
        while pending or live:
            while pending and len(live) < par:
                run, s, mk = pending.pop(0)
                live.append((run, s, mk, mk()))
            run, s, mk, p = live.pop(0)
            done.append((run, s, mk, p.wait()))
        for run, s, mk, p in done:
            v = verdict(p)
            if v == "hang":
                # the same cases again: a deadlock comes back, a stalled machine does not
                print(f"{pid}: a case hung, running it again", flush=True)
                p = mk().wait()
                v = "violation" if verdict(p) in ("hang", "violation") else "noanswer"
            for key in re.findall(r"^VT-KNOWN (\S+)", p.text, re.M):
                if key not in shown:
                    shown.add(key)
                    print(f"KNOWN-FINDING: property={pid} {keys.get(key, key)}", flush=True)
            if "fuzz" in run and fuzz_report(run, p.text):
                reports.append(fuzz_report(run, p.text))
            for n in sorted(os.listdir(p.out)):
                with open(os.path.join(p.out, n)) as f:
                    reports.append(json.load(f))
            if v == "violation":
                if violation is None:
                    violation = save_replay(pid, p, run, s)
                    lines = [l for l in p.text.splitlines() if "[rapid] draw" not in l]
                    print("\n".join(lines[:120]), flush=True)
            elif v == "noanswer":
                problems.append(f"{run['pkg']} seed {s}: rc={p.rc}\n" + p.text[-6000:])
        write_evidence(pid, check, tier, seed, reports, time.time() - start, violation)
    finally:
        # everything below is this run's own scratch
        for d in {work, scratch}:
            subprocess.run(["chmod", "-R", "u+rwx", d], stderr=subprocess.DEVNULL)
            shutil.rmtree(d, ignore_errors=True)
    if violation:
        die(1, f"VIOLATION property={pid} replay={violation}")
    if problems:
        die(2, f"{pid}: no answer\n" + "\n".join(problems))
    ev = sum(r["evaluations"] for r in reports)
    if ev == 0:
        die(2, f"{pid}: nothing ran")
    print(f"{pid}: held on {ev} cases in {time.time() - start:.1f}s", flush=True)
    sys.exit(0)


def write_evidence(pid, check, tier, seed, reports, wall, violation):
    tests = {}
    for r in reports:
        t = tests.setdefault(r["test"], {"rule": r["rule"], "evaluations": 0, "hashes": set(),
                                         "not_run_for_budget": 0, "labels": {}, "samples": []})
        t["evaluations"] += r["evaluations"]
        t["not_run_for_budget"] += r["not_run_for_budget"]
        t["hashes"].update(r["hashes"] or [])
        for k, v in (r["labels"] or {}).items():
            t["labels"][k] = t["labels"].get(k, 0) + v
        if len(t["samples"]) < 4:
            t["samples"] += (r["samples"] or [])[:4 - len(t["samples"])]
    per = {}
    for name, t in sorted(tests.items()):
        per[name] = {"rule": t["rule"], "evaluations": t["evaluations"],
                     "distinct_nontrivial": len(t["hashes"]),
                     "not_run_for_budget": t["not_run_for_budget"],
                     "distribution": dict(sorted(t["labels"].items()))}
    cov = {
        "evaluations": sum(v["evaluations"] for v in per.values()),
        "distinct_nontrivial": sum(v["distinct_nontrivial"] for v in per.values()),
        "rule": " | ".join(f"{n}: {v['rule']}" for n, v in per.items()) or "none ran",
        "samples": [{"test": n, "case": s} for n, t in sorted(tests.items()) for s in t["samples"]],
        "tests": per,
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": check["level"], "coverage": cov,
          "assumptions": check.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": 1 if violation else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    main()
