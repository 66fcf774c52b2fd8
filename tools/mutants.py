#!/usr/bin/env python3
# mutants.py OUT [N]: applies the small changes listed by tools/mutate to
# copies of /repo; keeps those that build and pass the stable tests, and notes
# what the analyzer says about each: caught, undecided or nothing.
import json, os, shutil, subprocess, sys, random, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = "/opt/veriftools/go1.27.3/bin"
env = dict(os.environ, PATH=GO + ":" + os.environ["PATH"], GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="0", GOMAXPROCS="2")
stable = set(t.split("github.com/jhump/gopoet/")[1] for t in json.load(open("/opt/vp/BASELINE.json"))["stable"])
out, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 10**9
VA = os.environ.get("VA", os.path.join(V, "bin/va"))
base = "/tmp/mutants.%d" % os.getpid()
SRC = base + "/src"
shutil.copytree("/repo", SRC, ignore=shutil.ignore_patterns(".git"))
muts = [json.loads(l) for l in subprocess.run(["go", "run", ".", SRC], cwd=os.path.join(V, "tools/mutate"), env=env, capture_output=True, text=True, check=True).stdout.splitlines()]
seen, uniq = set(), []
for m in muts:
    k = (m["file"], m["from"], m["to"], m["new"])
    if k not in seen:
        seen.add(k); uniq.append(m)
muts = uniq
for i, m in enumerate(muts): m["id"] = i
only = os.environ.get("ONLY")
if only: muts = [m for m in muts if m["id"] in set(map(int, only.split(",")))]
if n < len(muts):
    random.seed(int(os.environ.get("SEED", "1"))); muts = random.sample(muts, n)
print(len(muts), "changes", flush=True)
tls = threading.local()
cnt = [0]
def run(args, cwd, t=120):
    try:
        r = subprocess.run(args, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=t)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 99, "", "timeout"
lock = threading.Lock()
def one(m):
    if not hasattr(tls, "d"):
        with lock: cnt[0] += 1; tls.d = "%s/w%d" % (base, cnt[0])
        shutil.copytree(SRC, tls.d)
    d = tls.d
    p = os.path.join(d, os.path.basename(m["file"]))
    m["file"] = os.path.join(SRC, os.path.basename(m["file"]))
    src = open(m["file"], "rb").read()
    open(p, "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
    try:
        rc, o, e = run(["go", "build", "./..."], d)
        if rc: return m, "nobuild", ""
        rc, o, e = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "20s", "./..."], d)
        ok = set()
        for l in o.splitlines():
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("Action") == "pass" and j.get("Test"): ok.add(j["Test"])
        if not stable <= ok: return m, "tests", ""
        rc, o, e = run([VA, "-repo", d, "-verif", V], d, 600)
        ls = o.splitlines()
        diff = [l for l in ls if l.startswith("DIFF") or "violation" in l]
        und = [l for l in ls if l.startswith("UNDEC")]
        if diff: return m, "caught", "; ".join(x.split(" ")[1] if " " in x else x for x in diff)[:300]
        if und: return m, "undecided", "; ".join(x[:150] for x in und)[:600]
        if rc not in (0, 1): return m, "crash", (e or o)[-300:]
        return m, "missed", ""
    finally:
        open(p, "wb").write(src)
stat = {}
with open(out, "w") as f, cf.ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for m, r, why in ex.map(one, muts):
        stat[r] = stat.get(r, 0) + 1
        f.write(json.dumps(dict(m, result=r, why=why)) + "\n"); f.flush()
shutil.rmtree(base, ignore_errors=True)
print(stat)
