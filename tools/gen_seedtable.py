#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded_notes.json."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes=json.load(open(V+'/tools/seed_notes.json'))
rows=['<!-- seeds -->','| planted bug | property | needs | caught by | strengthened |','|---|---|---|---|---|']
seeds=sorted(os.listdir(V+'/seeded'),key=lambda n:(json.load(open(f'{V}/seeded/{n}/meta.json'))['property'],n))
for n in seeds:
    m=json.load(open(f'{V}/seeded/{n}/meta.json'))
    by=notes.get(n,{}).get('by',m['property'])
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {by} | {notes.get(n,{}).get('how','')} |")
rows.append('<!-- /seeds -->')
p=V+'/DESIGN.md'; s=open(p).read(); t='\n'.join(rows)
s=s.replace('SEEDTABLE',t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
