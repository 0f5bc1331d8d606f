#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.jsonl from /repo's fix commits (used by hand)."""
import subprocess
M={}
for l in open('/verif/tools/fixmap.txt'):
    if '\t' in l:
        p,s=l.rstrip('\n').split('\t'); M[s]=p
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '):
        out.append('fixed: property=%s %s %s'%(M[s[5:]],h,s[5:]))
p='/verif/known_findings.jsonl'
keep=[l for l in open(p).read().splitlines() if l.startswith('{')]
open(p,'w').write('\n'.join(keep+out)+'\n')
