#!/usr/bin/env python3
"""seed.py SPEC.py : plants bugs in scratch copies and keeps the confirmed ones.
SPEC defines SEEDS = [dict(id, property, pkg, edits=[(file, old, new)], demo=Go test source body, needs, breaks)]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.environ.get('V', '/verif')
DEMO = '''#!/bin/bash
# run in /repo; the test beside this script is overlaid into the package
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off TMPDIR=$T
go test -vet=off -count=1 -overlay "$T/o.json" -run '^TestZZDemo$' ./%s
'''
def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)
only = set(sys.argv[2:])
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only: continue
    if os.path.exists(f"{V}/seeded/{s['id']}/patch.diff") and not only: continue
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['cp', '-a', os.environ.get('R', '/repo'), tmp + '/r'], check=True)
        r = tmp + '/r'
        d = tmp + '/d'; os.mkdir(d)
        open(d + '/demo_test.go', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO % (s['pkg'], s['pkg'])); os.chmod(d + '/demo.sh', 0o755)
        a = sh(d + '/demo.sh', r)
        if a.returncode != 0:
            print(s['id'], 'REJECT: demo fails on the unchanged tree\n', a.stdout[-1500:], a.stderr[-1500:]); continue
        bad = False
        for f, old, new in s['edits']:
            t = open(r + '/' + f).read()
            if t.count(old) != 1:
                print(s['id'], 'REJECT: edit matches', t.count(old), repr(old[:60])); bad = True; break
            open(r + '/' + f, 'w').write(t.replace(old, new))
        if bad: continue
        g = sh('gofmt -l ' + ' '.join(f for f, _, _ in s['edits']), r)
        sh('git diff > %s/patch.diff' % d, r)
        b = sh('GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go build ./... && GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off go test ./... 2>&1', r)
        if b.returncode != 0:
            print(s['id'], 'REJECT: build/test fails', b.stdout[-1500:], b.stderr[-800:]); continue
        a = sh(d + '/demo.sh', r)
        if a.returncode == 0:
            print(s['id'], 'REJECT: demo passes with the change'); continue
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dst = f"{V}/seeded/{s['id']}"
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        print(s['id'], 'kept', g.stdout.strip())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
