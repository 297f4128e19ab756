#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md: mktable.py LOG... (lines "<id> <property> rc=<n> <s>s <n> cases=<n> ...")"""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'(\S+) (C\d\d) rc=(\d+) (\d+)s \d+ (?:cases=(\d+))?', l)
        if m: got[m[1]] = m
d = open(f'{root}/DESIGN.md').read()
head = d[:d.index('## 7. Planted bugs')]
ids = sorted(os.listdir(f'{root}/seeded'))
meta = {i: json.load(open(f'{root}/seeded/{i}/meta.json')) for i in ids}
out = ['## 7. Planted bugs', '', f'{len(ids)} bugs are kept in /verif/seeded. Found by: the check of the property (quick tier, seed 1), with the number of cases done when it stopped.', '',
       '| id | what it breaks | needs | found by |', '|---|---|---|---|']
esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
for i in ids:
    m = got.get(i)
    res = 'not run' if not m else f'{m[2]}, {m[5]} cases' if m[3] == '1' else f'**missed by {m[2]}**'
    out.append(f"| {i} | {esc(meta[i]['what_it_breaks'])} | {esc(meta[i]['needs'])} | {res} |")
open(f'{root}/DESIGN.md', 'w').write(head + '\n'.join(out) + '\n')
