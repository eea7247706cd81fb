#!/usr/bin/env python3
"""seed.py build SPEC...   make /verif/seeded/<id> from a spec and confirm it in a scratch copy
seed.py check ID [CHECK] run the property's check with the planted change applied to /repo (and undo it)
A spec is a Python file with ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], PKG, DEMO (a Go test file of package PKG)."""
import json, os, shutil, subprocess, sys
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME="/root", PATH="/opt/vp/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin")
import threading
LOCK = threading.Lock()
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
DEMO = '''#!/bin/bash
# Runs the Go test beside this script inside the package, through an overlay.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 %(flags)s-run '^TestDemo' "./%(pkg)s"
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build(path):
    spec = {}
    exec(open(path).read(), spec)
    sid = spec["ID"]; d = f"{SEEDED}/{sid}"
    scratch = f"/tmp/seedwork/{sid}"
    shutil.rmtree(scratch, ignore_errors=True); os.makedirs("/tmp/seedwork", exist_ok=True)
    sh(["cp", "-a", "/repo", scratch], "/")
    sh(["git", "checkout", "-q", "--", "."], scratch)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(f"{d}/demo_test.go.txt", "w").write(spec["DEMO"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(DEMO % {"pkg": spec["PKG"], "flags": spec.get("FLAGS", "")})
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    r = sh(["bash", f"{d}/demo.sh"], scratch, timeout=300)
    ok = True
    def fail(what, out):
        nonlocal ok
        ok = False
        print(f"{sid}: {what}\n{out[-2500:]}")
    if r.returncode != 0: fail("demo fails on the unchanged tree", r.stdout)
    for f, old, new in spec["EDITS"]:
        p = f"{scratch}/{f}"; s = open(p).read()
        if s.count(old) != 1: fail(f"{f}: {s.count(old)} matches of {old!r}", ""); continue
        open(p, "w").write(s.replace(old, new))
    g = sh(["gofmt", "-l"] + [f for f, _, _ in spec["EDITS"]], scratch)
    if g.stdout.strip(): fail("gofmt", g.stdout)
    diff = subprocess.run(["git", "diff"], cwd=scratch, stdout=subprocess.PIPE, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=scratch, stdout=subprocess.PIPE, text=True).stdout.strip()
    removed = 0
    for f, old, new in spec["EDITS"]:
        orig = subprocess.run(["git", "show", f"{base}:{f}"], cwd=scratch, stdout=subprocess.PIPE, text=True).stdout.splitlines()
        dl = [l[1:] for l in subprocess.run(["git", "diff", "--", f], cwd=scratch, stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
        removed += sum(1 for l in dl if l in orig and l.strip())
    if not removed: print(f"{sid}: WARNING no original line removed")
    r = sh("go build $(go list -e -find ./... | grep -v sdk/token/paseto$)", scratch, shell=True)
    if r.returncode != 0: fail("does not build", r.stdout)
    r = sh("go test -json -vet=off -count=1 $(go list -e -find ./... | grep -v sdk/token/paseto$) > /tmp/seedwork/%s.json; python3 /opt/vp/results.py /tmp/seedwork/%s.res gojson:/tmp/seedwork/%s.json" % (sid, sid, sid), scratch, shell=True)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(f"/tmp/seedwork/{sid}.res"))
    want = set(stable["stable"])
    got = set(res.get("passed", []))
    if want - got: fail(f"{len(want-got)} stable tests fail", str(sorted(want - got)[:5]))
    r = sh(["bash", f"{d}/demo.sh"], scratch, timeout=300)
    if r.returncode == 0: fail("demo passes with the change", r.stdout)
    shutil.rmtree(scratch, ignore_errors=True)
    for e in ("json", "res"):
        if os.path.exists(f"/tmp/seedwork/{sid}.{e}"): os.remove(f"/tmp/seedwork/{sid}.{e}")
    print(sid, "OK" if ok else "NOT CONFIRMED")
def check(sid, prop=None):
    d = f"{SEEDED}/{sid}"
    prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    if subprocess.run(["git", "status", "--porcelain"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.strip(): sys.exit("/repo is not clean")
    try:
        a = sh(["git", "apply", f"{d}/patch.diff"], "/repo")
        if a.returncode: print(sid, "does not apply", a.stdout); return
        r = sh(["bash", "/verif/run.sh", prop, "quick"], "/verif")
    finally:
        sh(["git", "checkout", "--", "."], "/repo")
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    print(sid, prop, "CAUGHT" if caught else f"MISSED (exit {r.returncode})", flush=True)
def pcheck(sid, prop=None, tier="quick", seed="1"):
    """The check with the change applied, in a mount namespace of its own over copies of /repo and /verif."""
    import tempfile
    d = f"{SEEDED}/{sid}"
    prop = prop or json.load(open(f"{d}/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seedns.")
    try:
        sh(["cp", "-a", "/repo", f"{w}/repo"], "/"); sh(["git", "checkout", "-q", "--", "."], f"{w}/repo")
        a = sh(["git", "apply", f"{d}/patch.diff"], f"{w}/repo")
        if a.returncode: return f"{sid} does not apply {a.stdout}"
        sh(f"mkdir {w}/verif && cp -a /verif/harness /verif/run.sh /verif/known-findings.txt {w}/verif/", "/", shell=True)
        r = sh(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && VERIF_SEED={seed} bash /verif/run.sh {prop} {tier}"], "/")
    finally:
        shutil.rmtree(w, ignore_errors=True)
    caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
    open(f"/tmp/seedns.{sid}.{prop}.log", "w").write(r.stdout)
    with LOCK:
        rp = "/verif/tools/seedresults.json"
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[sid] = f"caught by {prop}" if caught else f"missed by {prop}"
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
    return f"{sid} {prop} " + ("CAUGHT" if caught else f"MISSED (exit {r.returncode})")
if __name__ == "__main__":
    if sys.argv[1] == "pcheck":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
            ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
            for o in ex.map(lambda x: pcheck(*x.split(":")), ids): print(o, flush=True)
    elif sys.argv[1] == "build":
        for p in sys.argv[2:]: build(p)
    else:
        check(*sys.argv[2:4])
