#!/usr/bin/env python3
# Writes MANIFEST.json from the registered harnesses and the list below.
import json,re,os
base=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(base+'/properties.jsonl')]
reg=open(base+'/reg/all.go').read()
have=set(re.findall(r'Prop: "(\w+)"',reg))
NA={
 'N01':'A cryptographic hardness claim over all adversaries; not a statement about executions of this code that a solver could decide. C28 decides that the right algorithm is applied to the right bytes with the right key.',
 'N02':'The failure is a SIGBUS raised by the kernel when a mapped page lies past the end of a truncated file; it happens outside the program text, so no symbolic execution of the Go code contains the event, and the code has no place where it could return an error.',
}
note='Symbolic execution of the go/ssa form of the real code, generated from /repo on every run; every assertion decided by z3 over all inputs within the bounds listed in the evidence file; counterexamples and sample paths are replayed on the compiled code. Trusts go/ssa, the interpreter in eng/ (checked by the replays), and the stand-ins in models/.'
try: notes=json.load(open(base+'/tools/notes.json'))
except Exception: notes={}
checks=[]
na=[]
for p in props:
    i=p['id']
    if i in have:
        checks.append({'property':i,'quick_cmd':f'bash check.sh {i} quick','thorough_cmd':f'bash check.sh {i} thorough',
          'technique':'symbolic execution of the Go SSA form with an SMT solver (z3)','level':'model_checking','level_note':notes.get(i,'')+(' ' if i in notes else '')+note})
    else:
        na.append({'property':i,'reason':NA.get(i,'No check yet.')})
json.dump({'version':1,'setup_cmd':'bash setup.sh','checks':checks,'not_applicable':na},open(base+'/MANIFEST.json','w'),indent=1)
