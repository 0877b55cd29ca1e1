#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.
usage: seedtable.py [ID=result ...]   results are kept in tools/seedresults.json"""
import json,glob,os,sys
R='/verif/tools/seedresults.json'
res=json.load(open(R)) if os.path.exists(R) else {}
for a in sys.argv[1:]:
    k,v=a.split('=',1); res[k]=v
json.dump(res,open(R,'w'),indent=1,sort_keys=True)
rows=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=m.split('/')[-2]; d=json.load(open(m))
    rows.append(f"| {i} | {d['needs']} | {res.get(i,'not run yet')} |")
p='/verif/DESIGN.md'; s=open(p).read()
head='| planted | needs | caught by |\n|---|---|---|\n'
i=s.rfind('| planted | needs')
s=s[:i]+head+'\n'.join(rows)+'\n'
open(p,'w').write(s)
