#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness's list of checks and tools/levels.json."""
import json, subprocess, os, re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
subs={}
for l in subprocess.check_output([V+'/harness/target/release/vharness','list'],text=True).splitlines():
    a=l.split(); subs.setdefault(a[0],[]).append(a[1])
notes=json.load(open(V+'/tools/levels.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in subs:
        t,n=notes[i]
        checks.append(dict(property=i,quick_cmd=f"bin/check.sh {i} quick",thorough_cmd=f"bin/check.sh {i} thorough",
          technique="property-based testing: "+t,level="exploration",level_note=n))
    else: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="bin/setup.sh",checks=checks,not_applicable=na,
 notes="Every check builds harness/ against /repo's working tree, then searches generated inputs with a choice-sequence generator and shrinks failures; see DESIGN.md. Known findings and repaired defects: known_findings.json.")
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open(V+'/MANIFEST.json','a').write('\n')
