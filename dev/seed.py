#!/usr/bin/env python3
"""Development helper: makes one planted bug from a specification and confirms it in a scratch copy of /repo.
usage (from python): from seed import plant; plant(id, property, needs, breaks, {file: [(old, new), ...]}, module, pkg, test_source)
The demonstration is an in-package Go test laid over the package with -overlay.
"""
import json, os, re, shutil, subprocess, sys
V = "/verif"; S = "/tmp/sr"
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", GOROOT="", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
           CGO_ENABLED="1", GOPATH="/root/go", GOCACHE="/root/.cache/go-build", GOFLAGS="-mod=mod -buildvcs=false")
DEMO = '''#!/bin/bash
# Runs the demonstration as an in-package test of the code in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOCACHE=/root/.cache/go-build GOFLAGS="-mod=mod -buildvcs=false"
o=$(mktemp); trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(module)s/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$o"
cd %(module)s && go test -vet=off -count=1 -timeout 250s -overlay "$o" -run '^TestDemo' ./%(pkg)s
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, **kw)
def fresh():
    subprocess.run(["rsync", "-a", "--delete", "/repo/", S + "/"], check=True) if shutil.which("rsync") else subprocess.run("rm -rf /tmp/sr && cp -a /repo /tmp/sr", shell=True, check=True)
def failing(tree):
    r = set()
    for m in ("shlib", "shuttermint"):
        p = sh("go test -json -vet=off -count=1 -timeout 10m ./...", f"{tree}/{m}")
        for l in p.stdout.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("Action") == "fail": r.add((j.get("Package"), j.get("Test")))
            if j.get("Action") == "build-fail": r.add((j.get("ImportPath"), "build"))
    return r
def plant(id, prop, needs, breaks, edits, module, pkg, test, checks=None):
    fresh()
    for f, reps in edits.items():
        p = f"{S}/{f}"; s = open(p).read()
        for a, b in reps:
            if s.count(a) != 1:
                print(id, "edit matches", s.count(a), "times:", a); return False
            s = s.replace(a, b)
        open(p, "w").write(s)
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    diff = sh("git diff", S).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO % dict(module=module, pkg=pkg)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go.txt", "w").write(test)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return confirm(id)
def confirm(id, full=True):
    d = f"{V}/seeded/{id}"; ok = True
    prop = json.load(open(d + "/meta.json"))["property"]
    fresh()
    p = sh(f"bash {d}/demo.sh", S)
    if p.returncode: print(id, "DEMO FAILS ON CLEAN", p.stdout[-3000:], p.stderr[-2000:]); ok = False
    p = sh(f"git apply {d}/patch.diff", S)
    if p.returncode: print(id, "patch does not apply", p.stderr); return False
    for m in ("shlib", "shuttermint"):
        p = sh("go build ./...", f"{S}/{m}")
        if p.returncode: print(id, "DOES NOT BUILD", p.stderr); return False
    p = sh(f"bash {d}/demo.sh", S)
    if p.returncode == 0: print(id, "DEMO PASSES WITH BUG", p.stdout[-2000:]); ok = False
    elif "--- FAIL" not in p.stdout and "panic" not in p.stdout: print(id, "demo failure odd", p.stdout[-2000:], p.stderr[-1000:])
    if full:
        base = set(map(tuple, json.load(open("/tmp/basefail.json"))))
        new = failing(S) - base
        if new: print(id, "TESTS FAIL", new); ok = False
    c = subprocess.run(f"REPO={S} bash {V}/check.sh {prop}", shell=True, capture_output=True, text=True)
    line = [l for l in c.stdout.splitlines() if l.strip()]
    print(id, prop, "ok" if ok else "NOT OK", "CAUGHT" if c.returncode == 1 else f"missed (exit {c.returncode})", "|", (line[0] if line else "")[:230])
    return ok
if __name__ == "__main__":
    if not os.path.exists("/tmp/basefail.json"):
        json.dump([list(x) for x in failing("/repo")], open("/tmp/basefail.json", "w")); print(open("/tmp/basefail.json").read())
    for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
        confirm(i)
