#!/usr/bin/env python3
"""ed.py FILE OLD NEW [N] : replace the Nth (1-based; default: the only) occurrence in /repo/rustfst/src/FILE"""
import sys
f,o,n=sys.argv[1:4]; k=int(sys.argv[4]) if len(sys.argv)>4 else 0
p=f if f.startswith('/') else ('/repo/'+f if f.startswith('rustfst') else '/repo/rustfst/src/'+f)
s=open(p).read(); c=s.count(o)
if c==0 or (k==0 and c!=1): sys.exit(f'{f}: {c} occurrences')
i=-1
for _ in range(max(k,1)): i=s.index(o,i+1)
open(p,'w').write(s[:i]+n+s[i+len(o):])
