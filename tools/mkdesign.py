#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
first_missed=set(open('/verif/tools/missed.txt').read().split())
rows=['| bug | check | breaks |','|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append('| %s%s | %s | %s |'%(i,'*' if i in first_missed else '',m['property'],m['what_it_breaks'].replace('|','/').split('. ')[0].rstrip('.')))
p='/verif/DESIGN.md'; s=open(p).read()
t='<!-- bugs -->\n'+'\n'.join(rows)+'\n<!-- end -->'
if '@@TABLE@@' in s: s=s.replace('@@TABLE@@',t)
else: s=re.sub(r'<!-- bugs -->.*?<!-- end -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
