#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json,re,os
base=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
P=[json.loads(l) for l in open(base+'/properties.jsonl')]
reg=open(base+'/reg/all.go').read()
H={}
for m in re.finditer(r'Prop: "(\w+)".*?Name: "(\w+)"(.*?)Bounds: \[2\]string\{("(?:[^"\\]|\\.)*"), ("(?:[^"\\]|\\.)*")\}(.*)',reg):
    H.setdefault(m.group(1),[]).append((m.group(2),json.loads(m.group(4)),json.loads(m.group(5)),'Thorough: true' in m.group(3)+m.group(6)))
how=json.load(open(base+'/tools/how.json'))
out=open(base+'/tools/design.head.md').read()
out+='## Properties: method, oracle, bounds\n\nAll are decided by the engine above; the text says what is symbolic and what the oracle is. (q) quick, (t) thorough bounds.\n\n'
for p in P:
    i=p['id']
    out+=f"### {i} {p['title']}\n\n{how.get(i,'')}\n\n"
    for n,q,t,th in H.get(i,[]):
        s=f"* `{n}`"
        if q: s+=f" (q) {q}"
        if t and t!='same': s+=f" (t) {t}"
        out+=s+"\n"
    out+='\n'
out+=open(base+'/tools/design.tail.md').read()
out+='\n## Planted bugs\n\nEach is confirmed by `tools/seed.py` (applies, builds, keeps the stable tests, its demonstration passes without and fails with it). `tools/runseeds.sh` runs the checks against them.\n\n'
try: got=json.load(open(base+'/tools/caught.json'))
except Exception: got={}
out+='| bug | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(os.listdir(base+'/seeded')):
    m=json.load(open(f'{base}/seeded/{d}/meta.json'))
    out+=f"| {d} | {m['property']} | {m['needs'].replace('|','/')} | {got.get(d,'?')} |\n"
open(base+'/DESIGN.md','w').write(out)
