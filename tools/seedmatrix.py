#!/usr/bin/env python3
"""Prints, for every planted bug, what the analyzer reports with it.

Works on scratch copies of /repo; VA is the analyzer's binary."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VA = os.environ.get('VA', V + '/bin/va')

def run(repo):
    o = subprocess.run([VA, '-repo', repo, '-verif', V], capture_output=True, text=True, errors='replace').stdout
    r = {}
    for l in o.splitlines():
        m = re.match(r'DIFF\s+(.*?)\s+(P[\d,P]+)(?:\s|$)', l)
        if m:
            r[m[1]] = m[2]
    return r

def one(d):
    t = tempfile.mkdtemp(prefix='seedm')
    try:
        shutil.copytree('/repo', t + '/r', symlinks=True)
        if subprocess.run(['git', '-C', t + '/r', 'apply', d + '/patch.diff']).returncode:
            return None
        return run(t + '/r')
    finally:
        shutil.rmtree(t)

base = run('/repo')
ds = sorted(glob.glob(V + '/seeded/*/'))
with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    for d, r in zip(ds, ex.map(one, ds)):
        m = json.load(open(d + 'meta.json'))
        name = os.path.basename(d[:-1])
        ops = {k.split('~')[0]: v for k, v in (r or {}).items() if base.get(k) != v}
        mine = sorted(k for k, v in ops.items() if m['property'] in v.split(','))
        other = sorted({p for v in ops.values() for p in v.split(',')} - {m['property']})
        print('\t'.join([name, m['property'], 'caught' if mine else 'MISSED', ' '.join(mine)[:120], ','.join(other), m['needs']]), flush=True)
