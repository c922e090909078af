#!/usr/bin/env python3
"""Mutation runs: mutants.py MUTANTS.jsonl OUT.jsonl STAGE [workers].
Each worker mutates its own copy of /repo under /tmp/mut and runs a cheap selection of the checks on it."""
import json, os, shutil, subprocess, sys, threading, queue, time, re
H = "/verif"
src, outp, stage = sys.argv[1:4]
W = int(sys.argv[4]) if len(sys.argv) > 4 else 8
A = [("Test(C03_ops|C03_inverse|C03_reduce|C03_roots|C06_|C08_|C11_|C15_proof|C15_verifierdata|C15_common|C15_refused)", 60, 60),
     ("Test(C10_|C12_|C13_identity|C05_canon|C05_bits|C05_env|C04_|C07_perm|C07_hash|C09_history)", 25, 120),
     ("Test(C14_fri|C14_special|C16_|C21_path|C19_challenges|C19_public|C01_random|C20_)", 6, 200)]
B = [("Test(C03_|C06_|C08_|C11_|C10_|C12_|C15_)", 800, 300),
     ("Test(C04_|C05_canon|C05_bits|C05_env|C13_identity|C07_|C09_)", 120, 500),
     ("Test(C14_|C16_|C21_|C19_|C01_random|C18_encoding|C20_|C17_reuse|C02_(cheat|tamper))", 50, 900)]
stages = {"A": A, "B": B}[stage]
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOMAXPROCS="1", GOMEMLIMIT="2GiB")
GO = "/usr/local/bin/go1.23"
ms = [json.loads(l) for l in open(src)]
done = set()
if os.path.exists(outp):
    for l in open(outp):
        d = json.loads(l); done.add((d["file"], d["Start"], d["End"], d["New"]))
q = queue.Queue()
for m in ms:
    if (m["file"], m["Start"], m["End"], m["New"]) not in done:
        q.put(m)
lock = threading.Lock()
out = open(outp, "a")

def worker(i):
    d = "/tmp/mut/%d" % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    subprocess.check_call(["cp", "-a", H + "/harness", d + "/harness"])
    p = d + "/harness/go.mod"
    s = open(p).read().replace("=> /repo", "=> %s/repo" % d); open(p, "w").write(s)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        f = d + "/repo/" + m["file"]
        orig = open(f, "rb").read()
        open(f, "wb").write(orig[:m["Start"]] + m["New"].encode() + orig[m["End"]:])
        t0 = time.time()
        r = subprocess.run([GO, "test", "-vet=off", "-c", "-o", d + "/t", "./checks"], cwd=d + "/harness", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res = "nobuild" if r.returncode else "survived"
        why = ""
        if res == "survived":
            for pat, n, lim in stages:
                w = d + "/w"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
                e = dict(env, VERIF_CHECKS=str(n), TMPDIR=w)
                try:
                    r = subprocess.run([d + "/t", "-test.run", pat, "-test.failfast", "-rapid.shrinktime=0s", "-rapid.seed=7", "-test.timeout=%ds" % lim], cwd=w, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=lim + 20, errors="replace")
                    if r.returncode:
                        x = re.findall(r"--- FAIL: (\w+)", r.stdout)
                        res = "timeout" if "test timed out" in r.stdout and not x else "killed"
                        why = x[0] if x else r.stdout[-200:]
                        if "HARNESS" in r.stdout: why += " HARNESS"
                        break
                except subprocess.TimeoutExpired:
                    res = "timeout"; break
        open(f, "wb").write(orig)
        m.update(result=res, why=why, s=round(time.time() - t0, 1))
        with lock:
            out.write(json.dumps(m) + "\n"); out.flush()
    shutil.rmtree(d, ignore_errors=True)

ts = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
