#!/usr/bin/env python3
"""mkseed.py SPEC.py: turns seed(...) calls into /verif/seeded/<id>/ after confirming each in a scratch copy.

seed(id, prop, pkg, edits=[(file, old, new)], demo=Go test source, needs=, breaks=, race=False)
"""
import json, os, subprocess, sys, tempfile
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1')
only = sys.argv[2:]

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def tests(cwd):
    ok = set()
    r = run('go test -json -vet=off -count=1 -cpu 1 -timeout 10m ./...', cwd)
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'):
            ok.add(d['Package'] + '/' + d['Test'])
    return [t for t in BASE if t not in ok]

def seed(id, prop, pkg, edits, demo, needs, breaks, extra_demo=None):
    if only and id not in only: return
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    open(d + '/demo_test.go', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Run with cwd = the repository: exit 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -f "$T/o.json"; rmdir "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
timeout 250 go test -vet=off -count=1 -overlay "$T/o.json" -run '^TestZZDemo$' ./%s
''' % (pkg, pkg))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    with tempfile.TemporaryDirectory(prefix='seed') as t:
        w = t + '/repo'
        run(['cp', '-a', '/repo', w], '/')
        run('git checkout -q -- . && git clean -fdq', w)
        r = run(['bash', d + '/demo.sh'], w)
        if r.returncode != 0:
            print(id, 'BAD: demo fails on the unchanged tree', r.stdout[-1500:], r.stderr[-500:]); return
        for f, old, new in edits:
            s = open(w + '/' + f).read()
            if s.count(old) != 1:
                print(id, 'BAD: edit matches', s.count(old), 'times in', f, repr(old[:60])); return
            open(w + '/' + f, 'w').write(s.replace(old, new))
        r = run('gofmt -l ' + ' '.join(f for f, _, _ in edits), w)
        if r.stdout.strip(): print(id, 'note: gofmt', r.stdout.strip())
        p = run('git diff', w).stdout
        open(d + '/patch.diff', 'w').write(p)
        r = run('go build ./...', w)
        if r.returncode: print(id, 'BAD: build', r.stderr[-800:]); return
        bad = tests(w)
        if bad: print(id, 'BAD: tests fail', bad[:5]); return
        r = run(['bash', d + '/demo.sh'], w)
        if r.returncode == 0: print(id, 'BAD: demo passes with the patch'); return
        print(id, 'ok:', [l for l in r.stdout.splitlines() if 'zz_demo' in l or 'demo_test' in l or 'panic' in l][:2])

exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
