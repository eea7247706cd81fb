#!/usr/bin/env python3
"""Mutation measurement of the checks (a development tool; no check uses it).
run.py cover                 coverage of /repo by each check -> /tmp/mut/cover.json
run.py list FILES...         mutants -> /tmp/mut/mutants.jsonl
run.py all WORKERS [SCALE]   every mutant: build, existing tests, then the checks which reach it -> /tmp/mut/res.N.jsonl
run.py worker N M SCALE      (internal) one worker, inside its own mount namespace
run.py report                what survived"""
import json, os, re, subprocess, sys, glob, shutil
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GONOSUMDB="*", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME="/root", PATH="/opt/vp/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin")
M = os.environ.get("MUT", "/tmp/mut")
def sh(cmd, cwd="/", timeout=None):
    try:
        return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, shell=isinstance(cmd, str))
    except subprocess.TimeoutExpired as e:
        subprocess.run("pkill -9 -f check.test -s 0 || true", shell=True) if False else None
        r = subprocess.CompletedProcess(cmd, 124); r.stdout = ""; return r
def checks(): return sorted(os.path.basename(d).upper() for d in glob.glob("/verif/harness/checks/c*"))
def cover():
    os.makedirs(M, exist_ok=True)
    cov, times = {}, {}
    import time
    for c in checks():
        prof = f"{M}/{c}.cov"
        t = time.time()
        r = sh(f"HX_SCALE=0.05 HX_EVIDENCE= HX_KNOWN=/verif/known-findings.txt HX_RSEED=1 VERIF_SEED=1 VERIF_TIER=quick go test -vet=off -count=1 -coverpkg=zntr.io/solid/... -coverprofile={prof} ./checks/{c.lower()} -rapid.seed=5", "/verif/harness")
        times[c] = time.time() - t
        if r.returncode: print(c, r.stdout[-500:])
        for l in open(prof):
            m = re.match(r"zntr.io/solid/(\S+):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)", l)
            if m and int(m[4]):
                for i in range(int(m[2]), int(m[3]) + 1):
                    cov.setdefault(m[1], {}).setdefault(str(i), []).append(c) if c not in cov.get(m[1], {}).get(str(i), []) else None
        print(c, round(times[c], 1), flush=True)
    json.dump({"cov": cov, "times": times}, open(f"{M}/cover.json", "w"))
def worker(n, m, scale):
    cv = json.load(open(f"{M}/cover.json")); cov, times = cv["cov"], cv["times"]
    anchors = {}
    for l in open("/verif/properties.jsonl.ro"):
        p = json.loads(l)
        for f in p["anchors"]["files"]: anchors.setdefault(f, []).append(p["id"])
    out = f"{M}/res.{n}.jsonl"
    done = set()
    for f in glob.glob(f"{M}/res.*.jsonl"):
        for l in open(f): done.add(json.loads(l)["i"])
    muts = [json.loads(l) for l in open(f"{M}/mutants.jsonl")]
    w = open(out, "a")
    for i, mu in enumerate(muts):
        if i % m != n or i in done: continue
        rel = mu["file"].removeprefix("./").removeprefix("/repo/")
        path = f"/repo/{rel}"
        src = open(path, "rb").read()
        new = src[:mu["start"]] + mu["new"].encode() + src[mu["end"]:]
        if mu["op"] == "fold" and b'"strings"' not in src:
            new = re.sub(rb"(?m)^(package \w+)$", rb'\1; import "strings"', new, count=1)
        try:
            open(path, "wb").write(new)
            res, by = judge(rel, mu, cov, times, anchors, scale)
        finally:
            open(path, "wb").write(src)
        w.write(json.dumps(dict(mu, i=i, file=rel, res=res, by=by)) + "\n"); w.flush()
def judge(rel, mu, cov, times, anchors, scale):
    if sh(["go", "build", "./" + os.path.dirname(rel)], "/repo", 120).returncode: return "nocompile", ""
    r = sh("go build $(go list -e -find ./... | grep -v sdk/token/paseto$) && go test -vet=off -timeout 60s $(go list -e -find ./... | grep -v sdk/token/paseto$) 2>&1 | grep -E '^(FAIL|---|panic)' && exit 1; exit 0", "/repo", 300)
    if r.returncode: return "tests", ""
    reach = cov.get(rel, {}).get(str(mu["line"]))
    if not reach:
        reach = sorted({c for v in cov.get(rel, {}).values() for c in v} | set(anchors.get(rel, [])))
    first = [c for c in anchors.get(rel, []) if c in reach]
    if not reach: reach = checks() # constants: no line of theirs is covered
    order = sorted(reach, key=lambda c: (c not in first, times.get(c, 9)))
    notes = []
    for c in order:
        r = sh(f"HX_SCALE={scale} timeout -k 5 240 bash /verif/run.sh {c} quick", "/verif", 300)
        if r.returncode == 1 and "VIOLATION property=" in r.stdout: return "caught", c + (" after " + ",".join(notes) if notes else "")
        if r.returncode: notes.append(f"{c}:{r.returncode}")
    return ("survived" if not notes else "noverdict"), ",".join(notes) or ",".join(order)
def all_(workers, scale):
    ps = []
    for n in range(workers):
        w = f"{M}/w{n}"
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w + "/verif")
        sh(f"cp -a /repo {w}/repo && git -C {w}/repo checkout -q -- . && cp -a /verif/harness /verif/run.sh /verif/known-findings.txt {w}/verif/ && cp /verif/properties.jsonl {w}/verif/properties.jsonl.ro && mkdir {w}/verif/tools && cp -a /verif/tools/mutate {w}/verif/tools/")
        ps.append(subprocess.Popen(["unshare", "-m", "bash", "-c", f"mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && exec nice -n 5 python3 /verif/tools/mutate/run.py worker {n} {workers} {scale}"], env=dict(ENV, MUT=M)))
    for p in ps: p.wait()
def report():
    import collections
    rs = [json.loads(l) for f in glob.glob(f"{M}/res.*.jsonl") for l in open(f)]
    print(collections.Counter(r["res"] for r in rs))
    for r in sorted(rs, key=lambda r: (r["file"], r["line"])):
        if r["res"] in ("survived", "noverdict"):
            print(f'#{r["i"]} {r["file"]}:{r["line"]} [{r["op"]}] {r["res"]} {r["by"]}\n    {r["old"]!r} -> {r["new"]!r}'[:700])
if __name__ == "__main__":
    a = sys.argv[1]
    if a == "cover": cover()
    elif a == "list":
        os.makedirs(M, exist_ok=True)
        subprocess.run("go run . " + " ".join(sys.argv[2:]) + f" > {M}/mutants.jsonl", shell=True, cwd=os.path.dirname(os.path.abspath(__file__)), env=ENV, check=True)
    elif a == "all": all_(int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "0.3")
    elif a == "worker": worker(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else: report()
