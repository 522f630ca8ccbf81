#!/usr/bin/env python3
"""Development helper: applies behaviour-preserving (good) and breaking (bad) edits to scratch copies of /repo and runs the checks.
variants are in dev/variants/*.py as V = [(name, expected property failing or "", {file: [(old, new), ...]}), ...]"""
import os, sys, re, subprocess, runpy, shutil, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
VT = os.environ.get("VT", "/tmp/vt")
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", GOROOT="", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
           CGO_ENABLED="1", GOPATH="/root/go", GOCACHE="/root/.cache/go-build", GOFLAGS="-mod=mod -buildvcs=false")
ALL = subprocess.run([VT, "-list"], capture_output=True, text=True).stdout.split()
def run(v):
    name, exp, edits = v[:3]
    d = os.environ.get("VA", "/tmp/va") + "/" + re.sub(r"\W", "_", name)
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude=.git", "--exclude=node_modules", "/repo/", d + "/"], check=True)
    out = []
    try:
        for f, reps in edits.items():
            p = f"{d}/{f}"; s = open(p).read()
            for a, b in reps:
                if s.count(a) != 1: return [f"{name}: EDIT MATCHES {s.count(a)} TIMES: {a[:80]!r}"]
                s = s.replace(a, b)
            open(p, "w").write(s)
        mod = list(edits)[0].split("/")[0]
        for m in ("shlib", "shuttermint"):
            p = subprocess.run("go build ./...", cwd=f"{d}/{m}", shell=True, env=ENV, capture_output=True, text=True, errors="replace")
            if p.returncode: return [f"{name}: DOES NOT BUILD\n{p.stderr}"]
        p = subprocess.run([VT, "-repo", d, "-verif", d + "/.vv", "-property", ",".join(PROPS) + "," + PROPS[0] if PROPS else "all"], env=ENV, capture_output=True, text=True, errors="replace")
        failed, cur = {}, []
        for l in p.stdout.splitlines():
            if re.match(r"[A-Z]\d\d: \d+ obl", l): cur = []
            cur.append(l)
            m = re.match(r"VIOLATION property=(\w+)", l)
            if m: failed[m[1]] = "\n".join(cur)
        failed = list(failed.items())
        if p.returncode not in (0, 1): failed.append(("CRASH", p.stderr[-2000:]))
        fl = [x for x, _ in failed]
        if not exp and failed:
            for pr, o in failed: out.append(f"{name}: FALSE ALARM {pr}\n" + "\n".join(o.splitlines()[:(40 if VERB else 4)]))
        elif exp and not set(exp.split()) & set(fl): out.append(f"{name}: MISSED (expected {exp})")
        else: out.append(f"{name}: fine ({' '.join(fl)})")
    finally:
        if "-keep" not in sys.argv: shutil.rmtree(d)
    return out
VERB = "-v" in sys.argv
args = [a for a in sys.argv[1:] if a not in ("-v", "-keep")]
PROPS = [a for a in args if re.fullmatch(r"[A-Z]\d\d", a)]
pats = [a for a in args if a not in PROPS]
V = []
for f in sorted(os.listdir(here + "/variants")):
    if f.endswith(".py"): V += [x for x in runpy.run_path(here + "/variants/" + f)["V"]]
V = [v for v in V if not pats or any(p in v[0] for p in pats)]
V = [v for v in V if not PROPS or not v[1] or set(v[1].split()) & set(PROPS)]
with cf.ThreadPoolExecutor(5) as ex:
    n = 0
    for r in ex.map(run, V):
        for l in r:
            if ": fine" in l and not VERB and len(V) > 4: n += 1
            else: print(l, flush=True)
print(n, "fine,", len(V), "in total")
