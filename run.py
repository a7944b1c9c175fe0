#!/usr/bin/env python3
"""run.py check ID [quick|thorough] | replay FILE | build

Builds the harness against /repo's working tree, runs the generated-input search for
one property in several processes, merges what they covered into evidence/ID.json.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Anything else: the check could not decide."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
SHARDS = 8
# Properties whose search also runs under the race detector
RACE = {"C25"}
# Properties checked from inside the benchmark program
BENCH = {"C32"}
ERROR = 2


def env(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off")
    e.update(extra or {})
    return e


def build(scratch, race=False):
    out = os.path.join(scratch, "race.test" if race else "props.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["./props"], cwd=HARNESS, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("cannot build the harness against /repo:\n" + p.stdout[-4000:])
        sys.exit(ERROR)
    return out


def build_bench(scratch):
    """The benchmark program comes in through an overlay, with registrations of what was found in it."""
    out = os.path.join(scratch, "bench.test")
    src = os.path.join(scratch, "bench")
    os.makedirs(src)
    here = os.path.join(HARNESS, "benchprops")
    overlay = os.path.join(src, "overlay.json")

    def go(*args):
        return subprocess.run(("go",) + args, cwd=HARNESS, env=env(), stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True)
    p = go("run", "./benchgen", src, here)
    if p.returncode == 0:
        p = go("test", "-c", "-vet=off", "-overlay", overlay, "-o", out, "./benchprops")
    if p.returncode != 0:
        print("the structure of the benchmark program is unknown:\n" + p.stdout[-2000:])
        p = go("build", "-o", os.path.join(scratch, "bench.exe"), "pol/bench")
        if p.returncode == 0:
            # Only what needs no insight is left
            p = go("test", "-c", "-vet=off", "-o", out, "./benchprops")
    if p.returncode != 0:
        print("cannot build the harness against /repo:\n" + p.stdout[-4000:])
        sys.exit(ERROR)
    return out


def known_keys(prop):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def start(binary, test, scratch, tier, seed, shard, shards, extra=None):
    cwd = os.path.join(scratch, "%s-%d" % (os.path.basename(binary), shard))
    os.makedirs(cwd, exist_ok=True)
    log = open(os.path.join(cwd, "log"), "w")
    e = {"VERIF_TIER": tier, "VERIF_SEED": seed, "VERIF_SHARD": str(shard), "VERIF_SHARDS": str(shards),
         "VERIF_STATS": os.path.join(cwd, "stats.json"), "VERIF_SCRATCH": cwd,
         "VERIF_KNOWN": ",".join(known_keys(test[4:7])), "GORACE": "halt_on_error=1 exitcode=66",
         "GOMAXPROCS": "4" if shards > 1 else "8", "GOTRACEBACK": "all"}
    e.update(extra or {})
    args = [binary, "-test.run", "^%s$" % test, "-test.timeout", "0", "-test.v"]
    args += (extra or {}).get("ARGS", "").split()
    p = subprocess.Popen(args, cwd=cwd, env=env(e), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    return {"p": p, "cwd": cwd, "log": log.name, "test": test, "shard": shard, "shards": shards, "bin": binary}


def kill(runs):
    for r in runs:
        if r["p"].poll() is None:
            try:
                os.killpg(r["p"].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            r["p"].wait()


def classify(r):
    """'ok', 'violation' or 'error' for a finished process."""
    rc = r["p"].returncode
    if rc == 0:
        return "ok"
    text = open(r["log"], errors="replace").read()
    if rc < 0 or rc == 3 or "cannot allocate memory" in text or "out of memory" in text \
            or "no space left on device" in text or "only generated" in text:
        return "error"
    if re.search(r"^\s*--- FAIL", text, re.M):
        return "violation"
    if "WARNING: DATA RACE" in text:
        return "violation" if "/repo/" in text else "error"
    if "all goroutines are asleep" in text or re.search(r"^(panic|fatal error): ", text, re.M):
        return "violation" if "/repo/" in text else "error"
    return "error"


def run_all(runs, limit):
    deadline = time.time() + limit
    bad = None
    while True:
        alive = [r for r in runs if r["p"].poll() is None]
        for r in runs:
            if r["p"].poll() is not None and r["p"].returncode != 0:
                kind = classify(r)
                if kind == "violation" or bad is None:
                    bad = (kind, r)
                if kind == "violation":
                    break
        if bad and bad[0] == "violation":
            kill(runs)
            return bad
        if not alive:
            return bad
        if time.time() > deadline:
            # Keep the stacks of what was running
            for r in alive:
                try:
                    os.kill(r["p"].pid, signal.SIGQUIT)
                except ProcessLookupError:
                    pass
            time.sleep(3)
            kill(runs)
            return ("error", alive[0])
        time.sleep(0.05)


def failfile(cwd):
    files = glob.glob(os.path.join(cwd, "testdata", "rapid", "**", "*.fail"), recursive=True)
    return max(files, key=os.path.getmtime) if files else None


def tail(path, n=6000):
    t = open(path, errors="replace").read()
    return t if len(t) < 2 * n else t[:n] + "\n[...]\n" + t[-n:]


def report(prop, r, tier, seed):
    ff = failfile(r["cwd"])
    replay = {
        "property": prop, "test": r["test"], "tier": tier, "seed": seed,
        "shard": r["shard"], "shards": r["shards"], "race": r["bin"].endswith("race.test"),
        "failfile": open(ff).read() if ff else None,
        "failfile_test": os.path.basename(os.path.dirname(ff)) if ff else None,
        "how": "python3 /verif/run.py replay <this file>",
        "log": tail(r["log"]),
    }
    m = re.findall(r"--- FAIL: %s/(\S+)" % r["test"], replay["log"])
    replay["sub"] = m[-1] if m else None
    body = json.dumps(replay, indent=1, ensure_ascii=False)
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(body)
    print(tail(r["log"], 2500))
    print("VIOLATION property=%s replay=%s" % (prop, path))


def evidence(prop, tier, seed, runs, wall, violations):
    tot = {"evaluations": 0, "nontrivial": 0}
    hashes, classes, cases, samples, rules, known = set(), {}, {}, [], {}, {}
    longest, largest = {}, 0
    for r in runs:
        path = os.path.join(r["cwd"], "stats.json")
        if not os.path.exists(path):
            continue
        s = json.load(open(path))
        tot["evaluations"] += s["evaluations"]
        tot["nontrivial"] += s["nontrivial"]
        hashes.update(s["hashes"] or [])
        for k, v in s["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in s["cases"].items():
            cases[k] = cases.get(k, 0) + v
        for k, v in (s["cpu"] or {}).items():
            longest[k] = max(longest.get(k, 0), round(v, 1))
        largest = max(largest, s["rss"])
        rules.update(s["rules"])
        known.update(s["known"])
        for x in s["samples"] or []:
            name = x.split(": ")[0]
            if sum(1 for y in samples if y.split(": ")[0] == name) < 2:
                samples.append(x)
    ev = {
        "property": prop, "tier": tier, "seed": seed_int(seed), "level": "exploration",
        "coverage": {
            "evaluations": tot["evaluations"], "distinct_nontrivial": len(hashes),
            "nontrivial": tot["nontrivial"],
            "rule": "; ".join("%s: %s" % (k, rules[k]) for k in sorted(rules)),
            "samples": samples, "cases_per_subcheck": cases, "classes": classes,
            "processes": len(runs), "longest_case_cpu_s": longest, "largest_process_mb": largest >> 20,
        },
        "assumptions": ["IBM mathlib / gnark BN254 arithmetic, SHA-256 and the Go runtime are correct"],
        "wall_s": round(wall, 2), "violations": violations,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    return known, tot["evaluations"]


def seed_int(s):
    try:
        return int(s)
    except ValueError:
        return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def check(prop, tier):
    t0 = time.time()
    seed = os.environ.get("VERIF_SEED", "1")
    scratch = tempfile.mkdtemp(prefix="polverif-")
    runs = []
    try:
        binary = build_bench(scratch) if prop in BENCH else build(scratch)
        race = build(scratch, True) if prop in RACE else None
        shards = int(os.environ.get("VERIF_PROCS", SHARDS))
        limit = float(os.environ.get("VERIF_LIMIT", 780 if tier == "quick" else 6 * 3600))
        runs = [start(binary, "Test" + prop, scratch, tier, seed, i, shards) for i in range(shards)]
        bad = run_all(runs, limit - (time.time() - t0))
        if race and not bad:
            rr = [start(race, "Test%sRace" % prop, scratch, tier, seed, i, 2) for i in range(2)]
            runs += rr
            bad = run_all(rr, limit - (time.time() - t0))
        if bad and bad[0] == "violation":
            report(prop, bad[1], tier, seed)
            evidence(prop, tier, seed, runs, time.time() - t0, 1)
            return 1
        if bad:
            print(tail(bad[1]["log"]))
            print("the check of %s gave no answer (process %d ended with %s)" % (prop, bad[1]["shard"], bad[1]["p"].returncode))
            return ERROR
        known, n = evidence(prop, tier, seed, runs, time.time() - t0, 0)
        if n == 0:
            print("nothing was explored")
            return ERROR
        for key, what in sorted(known_keys(prop).items()):
            if key in known:
                print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, known[key]))
        print("%s: held on %d evaluations, %.1f s" % (prop, n, time.time() - t0))
        return 0
    finally:
        kill(runs)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="polverif-")
    runs = []
    try:
        bench = r["property"] in BENCH
        binary = build_bench(scratch) if bench else build(scratch, r.get("race", False))
        bad = None
        # A failure that depends on what was done before, or on the schedule, needs more than
        # its last case
        for whole in (False, True) if r.get("failfile") else (True,):
            extra = {}
            if r.get("sub"):
                extra["VERIF_ONLY"] = r["sub"]
            if not whole:
                ff = os.path.join(scratch, "case.fail")
                open(ff, "w").write(r["failfile"])
                extra["VERIF_CASES"] = "1"
                extra["ARGS"] = "-rapid.failfile=" + ff
            runs = [start(binary, r["test"], scratch, r["tier"], r["seed"], r["shard"], r["shards"], extra)]
            bad = run_all(runs, 3600)
            if bad and bad[0] == "violation":
                break
        print(tail(runs[0]["log"]))
        if bad and bad[0] == "violation":
            print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(path)))
            return 1
        return ERROR if bad else 0
    finally:
        kill(runs)
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        scratch = tempfile.mkdtemp(prefix="polverif-")
        try:
            build(scratch)
            build_bench(scratch)
            if RACE:
                build(scratch, True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return 0
    if a[:1] == ["replay"] and len(a) == 2:
        return replay(a[1])
    if a[:1] == ["check"] and len(a) in (2, 3):
        tier = a[2] if len(a) == 3 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    print(__doc__)
    return ERROR


if __name__ == "__main__":
    sys.exit(main())
