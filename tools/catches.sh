#!/bin/bash
# catches.sh: rewrites the table of planted bugs in DESIGN.md (from seeded/*/meta.json and tools/caught.txt)
cd "$(dirname "$0")/.."
python3 - <<'P'
import json,glob,os
s=open('DESIGN.md').read(); m='<!-- bugs -->'
s=s.split(m)[0].rstrip()+'\n\n'+m+'\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
c=dict(l.strip().split(None,1) for l in open('tools/caught.txt') if l.strip())
for d in sorted(glob.glob('seeded/*')):
    j=json.load(open(d+'/meta.json')); b=os.path.basename(d); s+='| %s | %s | %s | %s |\n'%(b,j['property'],j['needs'].replace('|','/'),c.get(b,'not caught'))
open('DESIGN.md','w').write(s)
P
