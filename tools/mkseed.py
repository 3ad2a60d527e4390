#!/usr/bin/env python3
# usage: mkseed.py < spec   (python literal: list of dicts id, property, edits [(old,new[,count])], demo (C++ after the includes), needs, breaks)
# writes seeded/<id>/{patch.diff,demo.sh,demo.cpp,meta.json}
import sys,re,os,json,subprocess,difflib
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src=open(os.environ.get('VERIF_REPO','/repo')+'/strtk.hpp').read()
for d in eval(sys.stdin.read()):
    s=src
    for t in d['edits']:
        n=t[2] if len(t)>2 else 1
        r=r'\s+'.join(re.escape(w) for w in t[0].split())  # any layout
        assert len(re.findall(r,s))==n,(d['id'],len(re.findall(r,s)),t[0])
        s=re.sub(r,lambda m:t[1],s)
    p=f"{V}/seeded/{d['id']}"; os.makedirs(p,exist_ok=True)
    diff=''.join(difflib.unified_diff(src.splitlines(True),s.splitlines(True),'a/strtk.hpp','b/strtk.hpp',n=10))
    base=set(open('/tmp/base/strtk.hpp').read().splitlines()) if os.path.exists('/tmp/base/strtk.hpp') else None
    gone=[l[1:] for l in diff.splitlines()[2:] if l.startswith('-')]
    if base is not None and not all(l in base for l in gone): print('NOTE',d['id'],'changes lines added by our commits')
    if not gone: print('NOTE',d['id'],'only adds lines')
    open(p+'/patch.diff','w').write(diff)
    open(p+'/demo.cpp','w').write('#include "strtk.hpp"\n#include <cstdio>\n#include <cstring>\n'+d['demo'].strip()+'\n')
    san=d.get('flags','')
    open(p+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0: the behaviour demo.cpp asks for is there; nonzero: it is not
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'find "$t" -delete' EXIT
g++ -std=c++11 -w -O1 {san} -I"$PWD" "$here/demo.cpp" -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
''')
    os.chmod(p+'/demo.sh',0o755)
    json.dump({"property":d['property'],"needs":d['needs'],"what_it_breaks":d['breaks']},open(p+'/meta.json','w'),indent=1)
    print(d['id'])
