#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   build the checks from /repo's working tree and run those of one property
   run.py --replay <replay file>        re-run the minimal failing case recorded in a replay file
   run.py --setup                       warm the build cache

Exit 0: held on every generated case. Exit 1 + VIOLATION line: a case broke it. Exit 2: the check itself failed."""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
LIMIT = {"quick": 840, "thorough": 6 * 3600}
# processes per section; sections not listed use 8. Sections that build large systems use fewer.
SHARDS = {"TestC23_program": 6}
LEVEL = "exploration"


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GONOSUMDB="*", GOSUMDB="off",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"),
             GOMODCACHE=os.environ.get("GOMODCACHE", "/root/go/pkg/mod"))
    e.setdefault("HOME", "/root")
    e.pop("USE_BIT_DECOMPOSITION_RANGE_CHECK", None)
    return e


def gobin():
    for g in ("/usr/local/bin/go1.23", "go1.23", "go"):
        if shutil.which(g):
            return g
    return "go"


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(tmp, race=False):
    out = os.path.join(tmp, "checks.race" if race else "checks.test")
    cmd = [gobin(), "test", "-vet=off", "-c", "-o", out] + (["-race"] if race else []) + ["./checks"]
    r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("build failed\n" + r.stdout[-6000:])
    return out


# the command-line program for C23, over gnark with the expensive half of its backends replaced (see harness/stub)
STUBS = {"backend/groth16/groth16.go": ("groth16", ["Setup", "DummySetup", "Prove"]),
         "backend/plonk/plonk.go": ("plonk", ["Setup", "Prove"]),
         "test/kzg_srs.go": ("test", ["NewKZGSRS"])}


def build_program(tmp):
    out = os.path.join(tmp, "program")
    r = subprocess.run([gobin(), "list", "-m", "-f", "{{.Dir}}", "github.com/consensys/gnark"], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("gnark's module is missing\n" + r.stdout)
    gnark, rep = r.stdout.strip(), {}
    for f, (name, funcs) in STUBS.items():
        src = open(os.path.join(gnark, f)).read()
        for x in funcs:
            if "func %s(" % x not in src:
                die("gnark has no %s in %s" % (x, f))
            src = src.replace("func %s(" % x, "func stubbed%s(" % x)
        d = os.path.join(tmp, "stub-" + name + ".go")
        open(d, "w").write(src)
        rep[os.path.join(gnark, f)] = d
        rep[os.path.join(gnark, os.path.dirname(f), "zz_standin.go")] = os.path.join(HARNESS, "stub", name + ".go.txt")
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    r = subprocess.run([gobin(), "build", "-overlay", ov, "-o", out, "github.com/succinctlabs/gnark-plonky2-verifier"], cwd=HARNESS,
                       env=dict(goenv(), GODEBUG="goindex=0"),  # the module index does not know the added files
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("build of the program failed\n" + r.stdout[-6000:])
    os.environ["VERIF_PROGRAM"] = out


walls = {}
procs, plock, stop = set(), threading.Lock(), threading.Event()


def kill_all():
    stop.set()
    with plock:
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def run_one(binary, test, shard, shards, seed, tier, out, tmp, deadline, extra=()):
    """returns (test, shard, status, log, failfile); status ok|fail|error|skipped"""
    if stop.is_set():
        return test, shard, "skipped", "", None
    cwd = os.path.join(tmp, "w-%s-%d" % (test, shard))
    os.makedirs(cwd, exist_ok=True)
    logf = os.path.join(cwd, "log")
    e = goenv()
    e.update(VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards), VERIF_TIER=tier, VERIF_OUT=out,
             GOMAXPROCS="2", GOMEMLIMIT="3GiB", TMPDIR=cwd)
    args = [binary, "-test.run", "^%s$" % test, "-test.v", "-test.timeout=0", "-rapid.shrinktime=25s",
            "-rapid.seed=%d" % seed] + list(extra)
    began = time.time()
    with open(logf, "wb") as lf:
        p = subprocess.Popen(args, cwd=cwd, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        with plock:
            procs.add(p)
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            rc = "timeout"
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        finally:
            with plock:
                procs.discard(p)
    log = open(logf, errors="replace").read()
    ff = sorted(glob.glob(os.path.join(cwd, "testdata", "rapid", "**", "*.fail"), recursive=True))
    walls[test] = walls.get(test, 0) + time.time() - began
    if rc == 0:
        shutil.rmtree(cwd, ignore_errors=True)
        return test, shard, "ok", "", None
    if stop.is_set():
        return test, shard, "skipped", "", None
    if rc == "timeout":
        return test, shard, "error", "timed out\n" + log[-3000:], None
    if "HARNESS:" in log or "[rapid] only generated" in log or rc < 0 or "out of memory" in log or "cannot allocate memory" in log or "no space left" in log:
        return test, shard, "error", "exit %s\n" % rc + log[-6000:], None
    return test, shard, "fail", log, (ff[-1] if ff else None)


def replay(path):
    meta = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        b = build(tmp, meta["test"].endswith("_race"))
        if meta["property"] == "C23":
            build_program(tmp)
        extra = []
        if meta.get("failfile"):
            ff = os.path.join(tmp, "case.fail")
            open(ff, "w").write(meta["failfile"])
            extra = ["-rapid.failfile=" + ff]
        res = run_one(b, meta["test"], meta["shard"], meta["shards"], meta["rapid_seed"], meta["tier"], tmp, tmp,
                      time.time() + 3600, extra)
        print(res[3] or "passes")
        sys.exit({"ok": 0, "fail": 1}.get(res[2], 2))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out


def main():
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        tmp = tempfile.mkdtemp(prefix="verif-")
        build(tmp)
        build(tmp, True)
        build_program(tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    deadline = t0 + LIMIT[tier]
    tmp = tempfile.mkdtemp(prefix="verif-")
    rc = 2
    try:
        rc = check(pid, tier, seed, t0, deadline, tmp)
    finally:
        kill_all()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(pid, tier, seed, t0, deadline, tmp):
    binary = build(tmp)
    if pid == "C23":
        build_program(tmp)
    r = subprocess.run([binary, "-test.list", "^Test%s_" % pid], cwd=tmp, env=goenv(), stdout=subprocess.PIPE, text=True)
    tests = [l for l in r.stdout.split() if l.startswith("Test%s_" % pid)]
    if not tests:
        die("no sections for " + pid)
    out = os.path.join(tmp, "out")
    os.makedirs(out)
    jobs = []
    for t in tests:
        n = SHARDS.get(t, 8)
        for s in range(n):
            jobs.append((t, s, n, (seed * 1000003 + s * 7919 + 1) & 0x7FFFFFFFFFFFFFFF or 1))
    # all first shards first, so that a broken section is seen early
    jobs.sort(key=lambda j: (j[1], j[0]))
    fails, errors = [], []
    racebin = build(tmp, True) if any(t.endswith("_race") for t in tests) else None
    workers = int(os.environ.get("VERIF_WORKERS", "8"))
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = {ex.submit(run_one, racebin if t.endswith("_race") else binary, t, s, n, sd, tier, out, tmp, deadline): (t, s, n, sd) for t, s, n, sd in jobs}
        for f in cf.as_completed(futs):
            test, shard, st, log, ff = f.result()
            if st == "fail" and not fails:
                fails.append((futs[f], log, ff))
                kill_all()
            elif st == "error":
                errors.append((test, shard, log))
    # evidence
    ev, keys, classes, samples, rules, per = 0, set(), {}, [], {}, {}
    for p in sorted(glob.glob(os.path.join(out, "part-*.json"))):
        d = json.load(open(p))
        ev += d["evaluations"]
        sec = d["section"]
        keys.update(sec + k for k in d["keys"])
        rules[sec] = d["rule"]
        x = per.setdefault(sec, {"evaluations": 0, "classes": {}})
        x["evaluations"] += d["evaluations"]
        for c, n in d["classes"].items():
            x["classes"][c] = x["classes"].get(c, 0) + n
        have = sum(1 for s in samples if s.startswith(sec + " "))
        samples += [s for s in (d["samples"] or []) if s not in samples][: max(0, 6 - have)]
    for sec in per:
        per[sec]["process_s"] = round(walls.get(sec, 0), 1)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(keys),
                     "rule": " | ".join("%s: %s" % (k, rules[k]) for k in sorted(rules)),
                     "samples": samples, "sections": per},
        "wall_s": round(time.time() - t0, 1), "violations": len(fails),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if fails:
        (test, shard, n, sd), log, ff = fails[0]
        d = os.path.join(HERE, "replays", pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%d.json" % (test, seed, shard))
        json.dump({"property": pid, "test": test, "shard": shard, "shards": n, "rapid_seed": sd, "tier": tier,
                   "failfile": open(ff).read() if ff else None, "log": log[-20000:],
                   "replay": "python3 /verif/run.py --replay " + path}, open(path, "w"), indent=1)
        print("\n".join(log.splitlines()[:60]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        for t, s, l in errors[:3]:
            print("ERROR in %s shard %d: %s" % (t, s, l))
        return 2
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s %s: held on %d evaluations (%d distinct non-trivial), %.0f s" % (pid, tier, ev, len(keys), time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
