#!/usr/bin/env python3
"""plant.py FILE.py...: makes /verif/seeded/<id>/ from bug descriptions.

Each FILE.py defines bug(id, prop, edits=[(file, old, new)...], test=go test
body, needs=..., breaks=...). Each bug is confirmed in a scratch copy of /repo:
it builds (both variants), passes the stable tests, and its demonstration
passes without it and fails with it.
"""
import sys, os, json, subprocess, shutil, re
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], HOME='/root',
           GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
DEMO = '''#!/bin/bash
# runs the demonstration as an in-package test of the repository in the current directory
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/zz_demo_test.go": "$here/demo_test.go.txt"}}
EOF
export TMPDIR="$tmp"
timeout 200 go test -vet=off -count=1 -overlay "$tmp/overlay.json" %s-run 'TestPlanted' .
'''
stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
bugs = []
def bug(id, prop, edits, test, needs, breaks, imports=(), flags=''):
    bugs.append(dict(id=id, prop=prop, edits=edits, test=test, needs=needs, breaks=breaks, imports=imports, flags=flags))

def sh(cmd, cwd, **k):
    k['shell'] = True
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    for f in sys.argv[1:]:
        exec(compile(open(f).read(), f, 'exec'), {'bug': bug})
    blame = {}
    for b in bugs:
        W = '/tmp/plantwork'
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree('/repo', W, symlinks=True)
        out = f"/verif/seeded/{b['id']}"
        msg = []
        ok = True
        for fn, old, new in b['edits']:
            s = open(f'{W}/{fn}').read()
            if s.count(old) != 1:
                msg.append(f'edit matches {s.count(old)} times in {fn}: {old[:50]!r}'); ok = False; break
            open(f'{W}/{fn}', 'w').write(s.replace(old, new))
        if ok:
            d = sh('git diff -U3', W, shell=True).stdout
            # changed lines must be of the original repository
            minus = sh("git diff -U0", W, shell=True).stdout
            cur = None
            for l in minus.split('\n'):
                if l.startswith('--- a/'): cur = l[6:]
                m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
                if m and cur:
                    n = int(m.group(2) if m.group(2) is not None else 1)
                    if n == 0: continue
                    a = int(m.group(1))
                    bl = sh(f'git blame -s -L {a},{a+n-1} HEAD -- {cur}', '/repo', shell=True).stdout
                    for x in bl.strip().split('\n'):
                        if not x.startswith('^ecd89a5'):
                            msg.append('not original: ' + x[:100])
            r = sh('go build ./... && go build -tags purego ./...', W, shell=True)
            if r.returncode: ok = False; msg.append('does not build: ' + r.stdout[-500:])
        if ok:
            r = sh('go test -json -vet=off -count=1 -timeout 5m ./... > /tmp/plant.log', W, shell=True)
            passed = set(); failed = set()
            for l in open('/tmp/plant.log'):
                try: e = json.loads(l)
                except Exception: continue
                if e.get('Test') and e['Action'] in ('pass', 'fail'):
                    (passed if e['Action'] == 'pass' else failed).add(e['Test'])
            st = {t.split('::')[-1].split('/', 0)[0] for t in stable}
            bad = [t for t in failed if not stable or any(s.endswith(t) for s in stable)]
            if bad: ok = False; msg.append(f'existing tests fail: {bad}')
        if ok:
            os.makedirs(out, exist_ok=True)
            imps = ''.join(f'\t"{i}"\n' for i in ('testing',) + tuple(b['imports']))
            open(f'{out}/demo_test.go.txt', 'w').write('package gopoet\n\nimport (\n' + imps + ')\n\nfunc TestPlanted(t *testing.T) {\n' + b['test'].strip('\n') + '\n}\n')
            open(f'{out}/demo.sh', 'w').write(DEMO % (b['flags'] + ' ' if b['flags'] else ''))
            os.chmod(f'{out}/demo.sh', 0o755)
            open(f'{out}/patch.diff', 'w').write(d)
            json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{out}/meta.json', 'w'), indent=1)
            r1 = sh(f'bash {out}/demo.sh', '/repo')
            r2 = sh(f'bash {out}/demo.sh', W)
            if r1.returncode != 0: ok = False; msg.append('demo fails on unchanged tree: ' + r1.stdout[-1500:])
            if r2.returncode == 0: ok = False; msg.append('demo passes with the change: ' + r2.stdout[-800:])
            if 'build failed' in r2.stdout: ok = False; msg.append('demo does not build: ' + r2.stdout[-800:])
            if not ok: shutil.rmtree(out)
        print(('planted ' if ok else 'REJECTED ') + b['id'], *msg, sep='\n   ' if msg else ' ')
    shutil.rmtree('/tmp/plantwork', ignore_errors=True)
main()
