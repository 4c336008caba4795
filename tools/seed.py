#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ (patch.diff, demo.sh, demo_test.go, meta.json) from seeds.py, and confirms
every planted bug in a scratch copy of /repo: it applies, builds, keeps the stable tests, its demo passes
without it and fails with it.  usage: seed.py [id ...]"""
import json, os, subprocess, sys, shutil, fnmatch
sys.path.insert(0, os.path.dirname(__file__))
from seeds import BUGS
OUT = '/verif/seeded'
WT = '/tmp/seedwt'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOSUMDB='off', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
DEMO = '''#!/bin/bash
# exit 0: the property holds; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
echo "{\\"Replace\\":{\\"$PWD/%(dir)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$tmp/o.json"
go test %(flags)s-overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%(dir)s
'''

def sh(cmd, cwd=WT, env=ENV, timeout=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def tests():
    os.makedirs('/tmp/seedtmp', exist_ok=True)
    r = sh('TMPDIR=/tmp/seedtmp go test -json -vet=off -count=1 -p 1 -timeout 3m ./...')
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
    shutil.rmtree('/tmp/seedtmp', ignore_errors=True)
    return ok

def main():
    pats = sys.argv[1:] or ['*']
    orig = sh("git log --format=%H --reverse | head -1", cwd='/repo').stdout.strip()
    for b in BUGS:
        if not any(fnmatch.fnmatch(b['id'], p) for p in pats): continue
        shutil.rmtree(WT, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', WT])
        sh('git checkout -q -- .')
        d = f"{OUT}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.sh', 'w') as f: f.write(DEMO % {'dir': b['dir'], 'flags': b.get('flags', '')})
        os.chmod(d + '/demo.sh', 0o755)
        with open(d + '/demo_test.go', 'w') as f: f.write(b['demo'].lstrip('\n'))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh')
        fail = []
        if r0.returncode != 0: fail.append('demo fails on unchanged tree: ' + (r0.stdout + r0.stderr)[-600:])
        blame = {}
        for path, old, new in b['edits']:
            s = open(f'{WT}/{path}').read()
            if s.count(old) != 1: fail.append(f'{path}: {s.count(old)} matches of {old!r}')
            open(f'{WT}/{path}', 'w').write(s.replace(old, new, 1))
        patch = sh('git diff').stdout
        # the changed lines have to be original ones
        for path in {e[0] for e in b['edits']}:
            bl = sh(f'git blame -s HEAD -- {path}', cwd='/repo').stdout.splitlines()
            o = sh(f'git diff -U0 -- {path}').stdout
            import re
            mine = 0; total = 0
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', o, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for i in range(a, a + n):
                    total += 1
                    if not bl[i-1].startswith('^' + orig[:7]): mine += 1
            if total == 0: print('  note: only insertions in', path)
            if mine: fail.append(f'{path}: changes {mine} of {total} lines that are not original')
        open(d + '/patch.diff', 'w').write(patch)
        r = sh('go build ./...')
        if r.returncode: fail.append('build: ' + r.stderr[-400:])
        else:
            miss = stable() - tests()
            if miss: fail.append('stable tests fail: ' + str(sorted(miss))[:300])
            r1 = sh(f'bash {d}/demo.sh')
            if r1.returncode == 0: fail.append('demo passes with the bug')
            elif 'TestDemo' not in r1.stdout: fail.append('demo did not run: ' + (r1.stdout + r1.stderr)[-400:])
        print(b['id'], 'OK' if not fail else 'BAD\n  ' + '\n  '.join(fail), flush=True)
        if fail: shutil.rmtree(d)
    shutil.rmtree(WT, ignore_errors=True)
main()
