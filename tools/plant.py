#!/usr/bin/env python3
"""Helper that confirms and files a planted bug under /verif/seeded/<id>.
usage (from a script): from plant import plant; plant(id, prop, needs, breaks, [(file, old, new)...], demo_go)
It works in a scratch worktree of /repo, checks that the change builds, keeps the stable tests passing,
and that the demonstration passes without it and fails with it."""
import json, os, subprocess, sys, tempfile, concurrent.futures
WT = '/tmp/plantwt'
ENV = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off',
           GOFLAGS='-mod=mod', GOWORK='off')
DEMO = r'''#!/bin/bash
# Runs main.go.txt (beside this file) as a program of the module in the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
O=$(mktemp /tmp/demo.XXXXXX.json)
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go.txt"}}' "$PWD" "$D" > "$O"
exec go run -overlay "$O" ./zz_demo
'''
def sh(cmd, cwd=WT, t=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t)
def plant(id, prop, needs, breaks, edits, demo, keep=True):
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    if not os.path.isdir(WT):
        sh(f'git worktree add --detach {WT} {head}', '/repo')
    sh(f'git checkout -qf --detach {head} && git clean -fdq')
    d = f'/tmp/plantdemo/{id}'; os.makedirs(d, exist_ok=True)
    open(d + '/main.go.txt', 'w').write(demo); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    r = sh(['bash', d + '/demo.sh'])
    if r.returncode != 0:
        print(id, 'DEMO FAILS ON CLEAN TREE', r.stdout[-1500:], r.stderr[-1500:]); return False
    for f, old, new in edits:
        p = f'{WT}/{f}'; s = open(p).read()
        if s.count(old) != 1: print(id, f, 'pattern occurs', s.count(old)); return False
        open(p, 'w').write(s.replace(old, new))
    sh('gofmt -w ' + ' '.join(sorted({f for f, _, _ in edits})))
    r = sh('go build ./... && go vet ' + ' '.join(sorted({'./' + os.path.dirname(f) for f, _, _ in edits})))
    if 'vet' not in r.stderr and r.returncode != 0: print(id, 'BUILD', r.stderr[-1500:]); return False
    logs = tempfile.mkdtemp()
    for i, m in enumerate(['.', 'codec']):
        sh(f'go test -json -vet=off -count=1 -timeout 10m ./... > {logs}/{i}.log', f'{WT}/{m}')
    out = logs + '/o.json'
    subprocess.run(['python3', '/opt/vp/results.py', out, f'gojson:{logs}/*.log'])
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok = set(json.load(open(out))['passed'])
    if base - ok: print(id, 'TESTS CATCH IT', sorted(base - ok)[:5]); return False
    r = sh(['bash', d + '/demo.sh'])
    if r.returncode == 0: print(id, 'DEMO PASSES WITH THE BUG'); return False
    print(id, 'ok; demo says:', (r.stdout + r.stderr).strip()[-300:])
    if keep:
        s = f'/verif/seeded/{id}'; os.makedirs(s, exist_ok=True)
        diff = sh('git diff').stdout
        open(s + '/patch.diff', 'w').write(diff)
        for n in ('main.go.txt', 'demo.sh'):
            open(f'{s}/{n}', 'w').write(open(f'{d}/{n}').read()); os.chmod(f'{s}/{n}', 0o755 if n == 'demo.sh' else 0o644)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(s + '/meta.json', 'w'), indent=1)
    sh(f'git checkout -qf --detach {head}')
    return True
