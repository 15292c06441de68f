#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix commits.
   usage: mkfixed.py [hash=Cxx ...]   new hashes need a property."""
import json,subprocess,sys
K='/verif/known_findings.json'; M='/verif/tools/fixprops.json'
k=json.load(open(K))
try: m=json.load(open(M))
except FileNotFoundError: m={}
for a in sys.argv[1:]:
    h,p=a.split('='); m[h]=p
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()]
k['fixed']=[]
for h,t in log:
    if t.startswith('fix: '):
        for p in m[h].split(','): k['fixed'].append(f"fixed: property={p} {h} {t[5:]}")
json.dump(m,open(M,'w'),indent=0); json.dump(k,open(K,'w'),indent=1,ensure_ascii=False); open(K,'a').write('\n')
print(len(k['fixed']))
