#!/usr/bin/env python3
# Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json.
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes=json.load(open(V+'/tools/planted_notes.json'))
rows=['| planted bug | caught by | what it breaks |','|---|---|---|']
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {notes.get(i, d['property'])} | {d['what_it_breaks']} |")
s=open(V+'/DESIGN.md').read()
a=s.index('<!-- planted -->')
open(V+'/DESIGN.md','w').write(s[:a]+'<!-- planted -->\n'+'\n'.join(rows)+'\n')
