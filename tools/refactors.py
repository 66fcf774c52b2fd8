#!/usr/bin/env python3
"""Applies edits that keep the behaviour to a copy of /repo, one by one, builds
and tests the copy and runs the analyzer on it: no edit may raise an alarm.

  refactors.py [name...]        env VA=analyzer binary, J=parallel jobs"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VA = os.environ.get("VA", V + "/bin/va")
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
R = {}

def edit(name, *changes):
    assert name not in R, name
    R[name] = changes

for f in sorted(os.listdir(V + "/tools/refactors")):
    if f.endswith(".py"):
        exec(open(V + "/tools/refactors/" + f).read())

def run(name):
    d = tempfile.mkdtemp(prefix="rf_")
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
        for c in R[name]:
            p = repo + "/" + c[0]
            if len(c) == 2:
                open(p, "a").write(c[1])
                continue
            s = open(p).read()
            if c[1] not in s:
                return name, "MISSING " + repr(c[1][:60]), ""
            open(p, "w").write(s.replace(c[1], c[2], 1))
        r = subprocess.run(["go", "vet", "."], cwd=repo, env=ENV, capture_output=True, text=True, errors="replace")
        if r.returncode:
            return name, "NOBUILD", r.stderr[:600]
        r = subprocess.run(["go", "test", "."], cwd=repo, env=ENV, capture_output=True, text=True, errors="replace")
        bad = set(re.findall(r"--- FAIL: (\w+)", r.stdout)) - BASEFAIL
        if bad or "FAIL" in r.stdout and not re.search(r"--- FAIL", r.stdout):
            return name, "TESTS", str(bad) + r.stdout[:400]
        vd = d + "/v"
        os.mkdir(vd)
        shutil.copytree(V + "/specs", vd + "/specs")
        shutil.copy(V + "/known-findings.txt", vd)
        r = subprocess.run([VA, "-repo", repo, "-verif", vd], env=ENV, capture_output=True, text=True, errors="replace")
        diff = [l for l in r.stdout.splitlines() if re.match(r"DIFF|VIOL|violation", l) and "rule:recursion-data" not in l]
        und = [l for l in r.stdout.splitlines() if re.match(r"UNDEC|undecided", l)]
        ok = sum(1 for l in r.stdout.splitlines() if l.startswith("ok"))
        return name, ("ALARM" if diff else "quiet") + " ok=%d undecided=%d" % (ok, len(und)), "\n".join(x[:400] for x in diff[:6] + und[:int(os.environ.get("U", "3"))])
    finally:
        shutil.rmtree(d)

BASEFAIL = set()
r = subprocess.run(["go", "test", "."], cwd="/repo", env=ENV, capture_output=True, text=True, errors="replace")
BASEFAIL = set(re.findall(r"--- FAIL: (\w+)", r.stdout))
names = [n for n in R if not sys.argv[1:] or any(a in n for a in sys.argv[1:])]
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for n, v, why in ex.map(run, names):
        print(n, v, flush=True)
        if why:
            print("   ", why.replace("\n", "\n    "))
        sys.stdout.flush()
