#!/usr/bin/env python3
# Regenerates h/*/fns.go from the harness functions (func Cnn_name()).
import re,glob,os
base=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','h')
for pkg in ('core','lua','cmds','par'):
    names=[]
    for f in sorted(glob.glob(f'{base}/{pkg}/*.go')):
        if f.endswith('fns.go'): continue
        names+=re.findall(r'^func (C\d\d_\w+)\(\)',open(f).read(),re.M)
    body=f'// Code generated by tools/gen.py. DO NOT EDIT.\n\npackage {pkg}\n\n// Fns holds the harness functions by name.\nvar Fns = map[string]func(){{\n'
    for n in sorted(names): body+=f'\t"{n}": {n},\n'
    body+='}\n'
    p=f'{base}/{pkg}/fns.go'
    if not os.path.exists(p) or open(p).read()!=body: open(p,'w').write(body)
os.system(f'gofmt -w {base}/*/fns.go')
