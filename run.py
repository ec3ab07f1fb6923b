#!/usr/bin/env python3
"""Decide one property: build its check from /repo's working tree, run it, write evidence.

usage: run.py ID                 (VERIF_SEED, VERIF_TIER from the environment)
       run.py ID --replay FILE   (re-run one saved failing case)
exit 0: held on everything explored; 1: VIOLATION line printed; 3: the check itself could not answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
ENV = dict(os.environ)
ENV.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOSUMDB="off")
ENV["PATH"] = "/usr/local/go/bin:" + ENV.get("PATH", "/usr/bin:/bin")

def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(3)

def main():
    pid = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    pkg = os.path.join(HARNESS, "props", pid.lower())
    if not os.path.isdir(pkg):
        die("no check for " + pid)
    scratch = tempfile.mkdtemp(prefix="vk_%s_" % pid)
    try:
        return run(pid, pkg, tier, seed, scratch, replay, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run(pid, pkg, tier, seed, scratch, replay, t0):
    binp = os.path.join(scratch, "check.test")
    race = os.path.exists(os.path.join(pkg, "RACE"))
    cmd = ["go", "test", "-vet=off", "-c", "-o", binp] + (["-race"] if race else []) + ["./props/" + pid.lower()]
    b = subprocess.run(cmd, cwd=HARNESS, env=ENV, capture_output=True, text=True)
    if b.returncode != 0 or not os.path.exists(binp):
        die("build failed:\n" + b.stdout[-4000:] + b.stderr[-4000:])
    ls = subprocess.run([binp, "-test.list", "."], cwd=HARNESS, env=ENV, capture_output=True, text=True)
    tests = [l for l in ls.stdout.split() if l.startswith("Test")]
    if ls.returncode != 0 or not tests:
        die("cannot list tests: " + ls.stdout[-2000:] + ls.stderr[-2000:])
    stats = os.path.join(scratch, "stats")
    os.mkdir(stats)
    env = dict(ENV, VK_STATS=stats, VK_KNOWN=os.path.join(ROOT, "KNOWN_FINDINGS.md"), VERIF_SEED=str(seed), VERIF_TIER=tier, VK_ID=pid)
    env["VK_MULT"] = os.environ.get("VK_MULT", "15" if tier == "quick" else "300")
    env["VK_BUDGET"] = os.environ.get("VK_BUDGET", "300" if tier == "quick" else str(4 * 3600))
    limit = 840 if tier == "quick" else 6 * 3600

    # every test process gets its own directory to leave rapid's fail file in; it sits under the
    # harness module because the datasets package asks the go tool where the repository is
    workroot = os.path.join(HARNESS, "work", "%s-%d" % (pid, os.getpid()))

    def one(test):
        wd = os.path.join(workroot, test)
        os.makedirs(wd, exist_ok=True)
        args = [binp, "-test.v", "-test.run", "^%s$" % test, "-test.timeout", "%ds" % limit]
        if replay:
            args += ["-rapid.failfile", os.path.abspath(replay)]
        try:
            p = subprocess.run(args, cwd=wd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit + 20)
            rc, out = p.returncode, p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, out = -999, (e.stdout or b"").decode("utf8", "replace")
        return test, rc, out, wd

    if replay:
        m = re.search(r"(Test\w+?)(?:-\d{8}.*|\.fail.*|\.log.*)$", os.path.basename(replay))
        if m and m.group(1) in tests:
            tests = [m.group(1)]
    with ThreadPoolExecutor(max_workers=4) as ex:
        results = list(ex.map(one, tests))

    bad, errs, known = [], [], []
    for test, rc, out, wd in results:
        known += re.findall(r"^\s*(?:\S+\.go:\d+: )?(KNOWN-FINDING: .*)$", out, re.M)
        if rc == 0 and "--- PASS: " + test in out:
            continue
        ran = "=== RUN   " + test in out
        if rc == -999 or "panic: test timed out after" in out:
            errs.append((test, "time limit", out))
        elif "[rapid] failed: only generated" in out or "cannot allocate memory" in out or "out of memory" in out or rc == -9:
            errs.append((test, "no answer", out))
        elif ran and (rc == 97 or rc == 66 or "--- FAIL: " + test in out or "panic:" in out or "fatal error:" in out):
            bad.append((test, out, wd))
        else:
            errs.append((test, "exit %d" % rc, out))

    # evidence
    ev, dn, rules, samples, per = 0, 0, [], [], {}
    for f in sorted(os.listdir(stats)):
        s = json.load(open(os.path.join(stats, f)))
        ev += s["evaluations"]; dn += s["distinct_nontrivial"]
        rules.append("%s: %s" % (s["test"], s["rule"]))
        samples += [{"test": s["test"], "case": x} for x in (s["samples"] or [])[:2]]
        per[s["test"]] = {"evaluations": s["evaluations"], "nontrivial": s["nontrivial"],
                          "distinct_nontrivial": s["distinct_nontrivial"], "classes": s["classes"]}
    if not replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                   "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": " || ".join(rules),
                                "samples": samples, "per_test": per, "exhaustive": False},
                   "assumptions": ["gonum/mat arithmetic and the Go toolchain are trusted",
                                   "only the generated cases were explored"],
                   "violations": len(bad), "wall_s": round(time.time() - t0, 3)},
                  open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(set(known)):
        print(k)
    for test, why, out in errs:
        print("ERROR %s %s: %s\n%s" % (pid, test, why, out[-3000:]))
    if bad:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        for test, out, wd in bad:
            base = os.path.join(rdir, "%s-%s" % (pid, test))
            open(base + ".log", "w").write("seed=%d tier=%s\nreplay: python3 run.py %s --replay %s.fail\n%s" % (seed, tier, pid, base, out[-200000:]))
            path = base + ".log"
            for d, _, fs in os.walk(wd):
                for f in fs:
                    if f.endswith(".fail"):
                        shutil.copy(os.path.join(d, f), base + ".fail")
                        path = base + ".fail"
            print("--- %s\n%s" % (test, out[-2500:]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    shutil.rmtree(workroot, ignore_errors=True)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs" % (pid, tier, seed, ev, dn, len(bad), time.time() - t0))
    if bad:
        return 1
    return 3 if errs else 0

sys.exit(main())
