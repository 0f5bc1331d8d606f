#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md, tools/design_props.md, known_findings.jsonl, seeded/*/meta.json and tools/detect.tsv (by hand)."""
import json,os
r='/verif/'
out=[open(r+'tools/design.md').read().rstrip(),'',open(r+'tools/design_props.md').read().rstrip(),'']
out+=['','## Known findings (not repaired)','',
'Listed in `known_findings.jsonl` by the exact case and kind of failure; anything else of the same property is still a violation.','']
for l in open(r+'known_findings.jsonl'):
    if l.startswith('{'):
        k=json.loads(l); out.append(f"* **{k['id']}** ({k['property']}): {k['what']}. {k.get('why','')} {len(k['cases'])} case(s) listed.")
out+=['',open(r+'tools/design_limits.md').read().rstrip(),'','## Defects repaired in /repo','',
'Each is a separate `fix:` commit; every one was shown first by a failing case of the named check on the unrepaired code, and the check reports it again if it returns.','',
'| property | commit | what the repair does |','|---|---|---|']
for l in open(r+'known_findings.jsonl'):
    if l.startswith('fixed: '):
        p,h,w=l[16:].rstrip('\n').split(' ',2); out.append(f'| {p} | {h} | {w} |')
out+=['','## Planted bugs and which checks catch them','',
'`tools/mkseed.py` makes a planted bug from `tools/seeds/*.py`, `tools/plant.sh` confirms it in a scratch copy (demonstration passes without and fails with it, stable tests pass) and runs checks on it.',
'"First missed" says what the check did not see when the bug was planted, and what was added for it.','',
'| planted bug | property | what it breaks | caught by | first missed |','|---|---|---|---|---|']
det={}
if os.path.exists(r+'tools/detect.tsv'):
    for l in open(r+'tools/detect.tsv'):
        f=l.rstrip('\n').split('\t'); det[f[0]]=(f+['',''])[1:3]
for d in sorted(os.listdir(r+'seeded')):
    m=json.load(open(r+f'seeded/{d}/meta.json')); c,n=det.get(d,('(not run)',''))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {c} | {n} |")
open(r+'DESIGN.md','w').write('\n'.join(out)+'\n')
