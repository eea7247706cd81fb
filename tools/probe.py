#!/usr/bin/env python3
"""probe.py [NAME...]   (env CHECK: another check than the property's)   a quick measure of the checks against hand-made changes (a development tool; no check uses it)
Each probe of probes.py is a change which should break its property while building and passing the existing tests; it is applied in a copy
of /repo inside a mount namespace of its own, and the property's check (and, when that misses, none other) is run there."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME="/root", PATH="/opt/vp/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin")
SEEDS = os.environ.get("SEEDS", "1").split()
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", shell=isinstance(cmd, str), **kw)
def probe(p):
    name, prop, edits = p[:3]
    w = tempfile.mkdtemp(prefix="probe.")
    try:
        sh(f"cp -a /repo {w}/repo && cd {w}/repo && git checkout -q -- .", "/")
        for f, old, new in edits:
            s = open(f"{w}/repo/{f}").read()
            if s.count(old) < 1: return name, prop, f"BAD {f}: no match of {old[:50]!r}"
            open(f"{w}/repo/{f}", "w").write(s.replace(old, new, 1))
        fs = sorted({f for f, _, _ in edits})
        r = sh("goimports -w " + " ".join(fs), f"{w}/repo")
        r = sh("go build $(go list -e -find ./... | grep -v sdk/token/paseto$)", f"{w}/repo")
        if r.returncode: return name, prop, "BAD build\n" + r.stdout[-800:]
        r = sh("go test -vet=off -count=1 $(go list -e -find ./... 2>/dev/null | grep -v sdk/token/paseto$) 2>&1 | grep -E '^(---|FAIL|    ---)' | head -5", f"{w}/repo")
        if r.stdout.strip(): return name, prop, "TESTS " + r.stdout.strip().replace("\n", " | ")[:300]
        sh(f"mkdir {w}/verif && cp -a /verif/harness /verif/run.sh /verif/known-findings.txt {w}/verif/", "/")
        res = []
        for q in os.environ.get("CHECK", prop).split(","):
            for s in SEEDS:
                r = sh(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && VERIF_SEED={s} timeout 900 bash /verif/run.sh {q} quick"], "/")
                c = r.returncode == 1 and f"VIOLATION property={q}" in r.stdout
                res.append(f"{q}/{s}:" + ("CAUGHT" if c else f"MISSED({r.returncode})"))
                if not c or len(SEEDS) == 1: open(f"/tmp/probe.{name}.{q}.log", "w").write(r.stdout)
        return name, prop, " ".join(res)
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    import probes, probes2, probes3, probes4, probes5, probes6, probes7, probes8
    ps = [p for p in probes.PROBES + probes2.PROBES + probes3.PROBES + probes4.PROBES + probes5.PROBES + probes6.PROBES + probes7.PROBES + probes8.PROBES if not sys.argv[1:] or p[0] in sys.argv[1:] or p[1] in sys.argv[1:]]
    names = [p[0] for p in ps]; assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for n, pr, r in ex.map(probe, ps): print(f"{n:32} {pr:5} {r}", flush=True)
