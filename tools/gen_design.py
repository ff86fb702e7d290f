#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between the markers) from props.py, properties.jsonl, the
evidence files and seeded/."""
import json,os,re,sys,glob
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H)
from props import PROPS
from design_notes import NOTES
titles={json.loads(l)['id']:json.loads(l)['title'] for l in open(H+'/properties.jsonl')}
out=[]
for i in sorted(titles):
    n=NOTES[i]
    e=f'{H}/evidence/{i}.json'; cost=''
    if os.path.exists(e):
        c=json.load(open(e))['coverage']
    out.append(f'### {i} – {titles[i]}\n')
    out.append(f'* Specified: {PROPS[i]["note"][0].upper()+PROPS[i]["note"][1:]}')
    out.append(f'* Theorems: {", ".join("`"+x+"`" for x in PROPS[i]["lemmas"])}.')
    for k in ('oracle','assumes','beyond','limits','search'):
        if k in n: out.append(f'* {dict(oracle="Oracle",assumes="Assumes",beyond="Why tests cannot settle it",limits="Not covered",search="Concrete search")[k]}: {n[k]}')
    out.append(f'* Cost: {n["cost"]}\n')
t=open(H+'/DESIGN.md').read()
def fill(name,text):
    global t
    a,b=f'<!-- {name} -->',f'<!-- end {name} -->'
    i=t.index(a)+len(a); j=t.index(b); t=t[:i]+'\n'+text+'\n'+t[j:]
fill('properties','\n'.join(out))
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
caught=json.load(open(H+'/tools/caught.json')) if os.path.exists(H+'/tools/caught.json') else {}
for d in sorted(glob.glob(H+'/seeded/*/meta.json')):
    m=json.load(open(d)); k=os.path.basename(os.path.dirname(d))
    rows.append(f'| {k} | {m["property"]} | {m["needs"]} | {caught.get(k,"")} |')
fill('seeded','\n'.join(rows))
open(H+'/DESIGN.md','w').write(t)
