#!/usr/bin/env python3
"""Runs one property's checks.

  run.py C01                 tier and seed from VERIF_TIER / VERIF_SEED
  run.py setup               build the test binaries once
  run.py replay FILE         replay a saved failure

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: no answer (build failure, time-out, resources).
"""
import json, os, re, shutil, signal, subprocess, sys, threading, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVID = os.path.join(HERE, "evidence")
RACE = {"C29"}            # properties whose binary is built with the race detector
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def goenv():
    e = dict(os.environ)
    root = "/opt/veriftools/go1.23.12"
    if os.path.isdir(root):
        e["GOROOT"] = root
        e["PATH"] = root + "/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=readonly",
             CGO_ENABLED="1", GOWORK="off")
    return e

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

def build(race, out=None):
    os.makedirs(BUILD, exist_ok=True)
    out = out or os.path.join(BUILD, "props%s.%d.test" % ("-race" if race else "", os.getpid()))
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["./props"]
    r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("the harness does not build against /repo's working tree")
    return out

def seeds():
    s = int(os.environ.get("VERIF_SEED", "1") or "1")
    # spread: rapid walks consecutive seeds; 0 would mean "random"
    x = int.from_bytes(hashlib.sha256(b"vcgo-%d" % s).digest()[:8], "big") >> 1
    return s, x or 1

def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out

class Sub:
    pass

def run_sub(binary, test, tier, seed, work, deadline, extra=(), env_extra=None):
    s = Sub()
    s.test = test
    s.dir = os.path.join(work, test)
    os.makedirs(s.dir, exist_ok=True)
    s.stats = os.path.join(s.dir, "stats.json")
    s.kf = os.path.join(s.dir, "kf.txt")
    left = max(5, int(deadline - time.time()))
    env = goenv()
    env.update(VERIF_STATS=s.stats, VERIF_KF=s.kf, VERIF_TIER=tier, VERIF_SEED=str(seed[0]),
               GOMEMLIMIT="3GiB", GORACE="halt_on_error=1 exitcode=66", TZ="UTC", TMPDIR=s.dir)
    env.setdefault("GOMAXPROCS", "4")
    if env_extra:
        env.update(env_extra)
    cmd = [binary, "-test.run", "^%s$" % test, "-test.v", "-test.timeout", "%ds" % left,
           "-rapid.seed", str(seed[1]), "-rapid.shrinktime", "15s"] + list(extra)
    t0 = time.time()
    with open(os.path.join(s.dir, "out.txt"), "w") as f:
        p = subprocess.Popen(cmd, cwd=s.dir, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            s.rc = p.wait(timeout=left + 20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            s.rc = -1000
    s.wall = time.time() - t0
    s.out = open(os.path.join(s.dir, "out.txt"), errors="replace").read()
    return s

def classify(s):
    """ok | violation | error"""
    o = s.out
    if s.rc == 0:
        return "ok"
    if s.rc == -1000 or "panic: test timed out after" in o:
        return "error"
    if "WARNING: DATA RACE" in o:
        return "violation"
    if s.rc < 0:
        return "error"                      # killed (memory, signal)
    if re.search(r"fatal error: (runtime: )?(out of memory|cannot allocate)", o) or "VERIF-HARNESS-ERROR" in o:
        return "error"
    if "[rapid] only generated" in o and "[rapid] failed" not in o and "[rapid] panic" not in o:
        return "error"
    if "--- FAIL" in o or "panic:" in o or "fatal error:" in o:
        return "violation"
    return "error"

def save_replay(prop, s, tier, seed, race):
    os.makedirs(REPLAYS, exist_ok=True)
    ff = []
    for d, _, fs in os.walk(os.path.join(s.dir, "testdata", "rapid")):
        ff += [os.path.join(d, f) for f in fs if f.endswith(".fail")]
    path = os.path.join(REPLAYS, "%s-%s-seed%d.replay" % (prop, s.test, seed[0]))
    with open(path, "w") as f:
        f.write("verif-replay 1\nproperty: %s\ntest: %s\ntier: %s\nseed: %d\nrace: %s\n" %
                (prop, s.test, tier, seed[0], "yes" if race else "no"))
        f.write("how: python3 /verif/run.py replay %s\n" % path)
        f.write("== rapid failfile (shrunk)\n")
        if ff:
            f.write(open(sorted(ff)[-1], errors="replace").read().rstrip() + "\n")
        last = os.path.join(s.dir, "last-input")
        if "fatal error:" in s.out and os.path.exists(last):
            f.write("== last input before the crash\n" + open(last, errors="replace").read() + "\n")
        f.write("== output\n")
        f.write(s.out[-20000:])
    return path

def list_tests(binary, prop):
    r = subprocess.run([binary, "-test.list", "^Test%s(_|$)" % prop], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=goenv(), cwd="/tmp")
    return [l for l in r.stdout.split() if l.startswith("Test")]

def check(prop):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = seeds()
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "3000"))
    race = prop in RACE
    binary = build(race)
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        tests = list_tests(binary, prop)
        if not tests:
            die("no tests for " + prop)
        deadline = t0 + budget
        results, lock, queue = [], threading.Lock(), list(tests)

        def worker():
            while True:
                with lock:
                    if not queue:
                        return
                    t = queue.pop(0)
                s = run_sub(binary, t, tier, seed, work, deadline)
                with lock:
                    results.append(s)

        th = [threading.Thread(target=worker) for _ in range(min(JOBS, len(tests)))]
        [t.start() for t in th]
        [t.join() for t in th]
        results.sort(key=lambda s: tests.index(s.test))

        viol, errs, ev, rules, samples, classes, evals, distinct = [], [], [], [], [], {}, 0, 0
        listed = {k[1]: k for k in known() if k[0] == prop}
        seen = []
        for s in results:
            c = classify(s)
            if c == "violation":
                viol.append((s, save_replay(prop, s, tier, seed, race)))
            elif c == "error":
                errs.append(s)
            if os.path.exists(s.stats):
                for st in json.load(open(s.stats)) or []:
                    evals += st["evaluations"]
                    distinct += st["distinct_nontrivial"]
                    rules.append("%s: %s" % (st["name"].removeprefix("Test"), st["rule"]))
                    for x in (st["samples"] or [])[:4]:
                        samples.append({"check": st["name"].removeprefix("Test"), "case": x})
                    classes[st["name"].removeprefix("Test")] = {
                        "evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
                        "wall_s": round(s.wall, 1), "classes": dict(sorted(st["classes"].items()))}
            if os.path.exists(s.kf):
                for k in open(s.kf).read().split("\n"):
                    if k.strip():
                        seen.append((k.strip(), s))
        for k, s in seen:
            if k in listed:
                print("KNOWN-FINDING: property=%s %s" % (prop, listed[k][2]))
            else:
                viol.append((s, save_replay(prop, s, tier, seed, race)))
                print("unlisted finding %s" % k)
        level = "exploration"
        evidence = {
            "property": prop, "tier": tier, "seed": seed[0], "level": level,
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": distinct,
                "rule": " || ".join(rules), "samples": samples[:60], "checks": classes,
            },
            "assumptions": ["the reference oracles in /verif/harness and the Go standard library's cryptography are right",
                            "JSON-LD contexts are served from did-go's embedded test loader and the harness"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(viol),
        }
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
        json.dump(evidence, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, prop + ".json"))
        for s, path in viol:
            tail = [l for l in s.out.split("\n") if l.strip()]
            print("\n".join(tail[-40:]))
        for s in errs:
            print("--- no answer from %s (rc %s)\n%s" % (s.test, s.rc, s.out[-3000:]))
        if viol:
            for s, path in viol[:1]:
                print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        if errs:
            return 2
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, evals, distinct, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if os.path.exists(binary):
            os.remove(binary)

def replay(path):
    txt = open(path, errors="replace").read()
    hd = dict(re.findall(r"^(\w+): (.*)$", txt.split("== rapid failfile")[0], re.M))
    ff = txt.split("== rapid failfile (shrunk)\n", 1)[1].split("== output\n", 1)[0]
    race = hd["race"] == "yes"
    os.environ["VERIF_SEED"] = hd["seed"]
    binary = build(race)
    work = os.path.join(BUILD, "work-replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    extra = []
    if ff.strip():
        f = os.path.join(work, "replay.fail")
        open(f, "w").write(ff)
        extra = ["-rapid.failfile", f]
    try:
        s = run_sub(binary, hd["test"], hd["tier"], seeds(), work, time.time() + 800, extra)
        print(s.out[-8000:])
        c = classify(s)
        if c == "violation":
            print("VIOLATION property=%s replay=%s" % (hd["property"], path))
        return {"ok": 0, "violation": 1, "error": 2}[c]
    finally:
        shutil.rmtree(work, ignore_errors=True)
        os.remove(binary)

if __name__ == "__main__":
    if len(sys.argv) < 2:
        die("usage: run.py <property>|setup|replay FILE")
    if sys.argv[1] == "setup":
        for r in (False, True):
            os.remove(build(r))
        print("setup done")
        sys.exit(0)
    if sys.argv[1] == "replay":
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    sys.exit(check(sys.argv[1]))
