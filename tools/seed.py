"""Makes one planted bug: edits a scratch copy of /repo, confirms that it builds, passes the stable tests and
that its demonstration tells it from the unchanged tree, then writes seeded/<id>/. Not used by any check."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the behaviour holds; non-zero: it is broken. Run with cwd = the repository.
d=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off PATH=/usr/local/go/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -vet=off -count=1 %(flags)s -timeout 240s -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)

def stable(repo):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    sh("sed 's#cd /repo#cd %s#' /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json" % repo, repo)
    ok = set(json.load(open("/tmp/seedtest.json"))["passed"])
    return [t for t in base if t not in ok]

def seed(sid, prop, pkg, edits, demo, needs, breaks, flags=""):
    d = os.path.join(ROOT, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo_test.go"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": pkg, "flags": flags})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    try:
        r0 = sh("bash %s/demo.sh" % d, w)
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        b = sh("PATH=/usr/local/go/bin:$PATH GOFLAGS=-mod=mod go build ./...", w)
        diff = sh("git diff", w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        r1 = sh("bash %s/demo.sh" % d, w)
        miss = stable(w) if b.returncode == 0 else ["build: " + b.stderr]
        verdict = r0.returncode == 0 and r1.returncode != 0 and not miss and "[build failed]" not in r1.stdout
        print(sid, prop, "OK" if verdict else "BAD", "demo clean rc", r0.returncode, "patched rc", r1.returncode, "missing tests", miss[:3])
        if not verdict:
            print(r0.stdout[-1500:], r0.stderr[-500:], "----", r1.stdout[-1500:], r1.stderr[-500:])
        return verdict
    finally:
        shutil.rmtree(w, ignore_errors=True)

def confirm(sid, seeds=(1,)):
    """run the property's check with the patch applied to /repo, then undo it"""
    d = os.path.join(ROOT, "seeded", sid)
    prop = json.load(open(d + "/meta.json"))["property"]
    a = sh("git -C /repo apply %s/patch.diff" % d, "/repo")
    res = []
    try:
        if a.returncode: return print(sid, "does not apply", a.stderr)
        for s in seeds:
            r = sh("VERIF_SEED=%d python3 run.py %s" % (s, prop), ROOT, timeout=1000)
            res.append(r.returncode if "VIOLATION property=%s" % prop in r.stdout or r.returncode != 1 else -1)
    finally:
        sh("git -C /repo checkout -- .", "/repo")
    print(sid, prop, "check exits", res, "CAUGHT" if all(x == 1 for x in res) else "MISSED", flush=True)

if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for i in ids:
        confirm(i, (1, 2, 3))
