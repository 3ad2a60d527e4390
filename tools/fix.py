#!/usr/bin/env python3
# usage: fix.py <<< python-literal list of (old,new[,count]); edits /repo/strtk.hpp, each old must match exactly `count` (default 1) times
import sys,ast,os
p=os.environ.get('VERIF_REPO','/repo')+'/strtk.hpp'; s=open(p).read()
for t in ast.literal_eval(sys.stdin.read()):
    old,new=t[0],t[1]; n=t[2] if len(t)>2 else 1
    assert s.count(old)==n,(s.count(old),old)
    s=s.replace(old,new)
open(p,'w').write(s)
