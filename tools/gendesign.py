#!/usr/bin/env python3
"""Writes DESIGN.md from design.in.md, properties.jsonl, a full run of the
analyzer (argument 1) and the output of seedmatrix.py (argument 2)."""
import collections, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ops = collections.defaultdict(list)
total = collections.Counter()
for l in open(sys.argv[1], errors='replace'):
    m = re.match(r'(ok|DIFF|UNDEC)\s+(.*?)\s+(P[\dP,]+)(?:\s|$)', l)
    if m:
        for p in m[3].split(','):
            total[p] += 1
            n = m[2].split('~')[0]
            n = re.sub(r'^(rule:\S+).*', r'\1', n)
            if n not in ops[p]:
                ops[p].append(n)
lines = []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    p = d['id']
    o = sorted(ops[p])
    t = [x for x in o if x.startswith('useTempl')]
    o = [x for x in o if not x.startswith('useTempl')]
    s = ', '.join('`%s`' % x for x in o[:14])
    if len(o) > 14:
        s += ' and %d more' % (len(o) - 14)
    if t:
        s += (', ' if s else '') + '%d laws on template data' % len(t)
    if p == 'P33':
        s += '; all other obligations for agreement of the variants'
    lines.append('* **%s** %s — %d obligations (both variants): %s.' % (p, d['title'], total[p], s))
fixes = []
for l in open(V + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixes.append('* %s `%s` %s' % m.groups())
seeds = ['| planted bug | property | reported by | also alarms | needs |', '|---|---|---|---|---|']
n = c = 0
for l in open(sys.argv[2]):
    f = l.rstrip('\n').split('\t')
    n += 1
    c += f[2] == 'caught'
    w = f[3].split(' ')
    if 'rule:' not in f[3]:
        w = ', '.join('`%s`' % x for x in w[:3]) + (' …' if len(w) > 3 else '')
    else:
        w = f[3]
    seeds.append('| %s | %s | %s | %s | %s |' % (f[0], f[1], w if f[2] == 'caught' else 'MISSED', f[4], f[5].replace('|', '/')))
s = open(V + '/tools/design.in.md').read()
for k, v in [('properties', '\n'.join(lines)), ('fixes', '\n'.join(fixes)), ('seedcount', '`seeded/` holds %d changes, each of which compiles, passes the tests and has a demonstration; %d are caught by the check of their own property (`tools/seedtest.sh`; the table is `tools/seedmatrix.py`).' % (n, c)), ('seeds', '\n'.join(seeds))]:
    s = s.replace('<!-- %s -->' % k, v)
open(V + '/DESIGN.md', 'w').write(s)
