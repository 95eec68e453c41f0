#!/usr/bin/env python3
"""plant.py SEEDFILE [id...]: makes /verif/seeded/<id> from edit descriptions and confirms each one in a scratch copy.

A seed file is Python defining SEEDS = [dict(id, prop, pkg, edits=[(file, old, new)...], needs, breaks, demo=None)].
"""
import json, os, re, shutil, subprocess, sys, tempfile
V = '/verif'
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = f"{V}/seeded/{s['id']}"
    if not only and os.path.exists(d + '/meta.json'):
        continue
    w = tempfile.mkdtemp(prefix='plant', dir='/tmp/scratch')
    try:
        sh(f'cp -a /repo {w}/repo && git -C {w}/repo checkout -q -- . && git -C {w}/repo clean -qfd')
        R = w + '/repo'
        bad = None
        for f, old, new in s['edits']:
            t = open(f'{R}/{f}').read()
            if t.count(old) != 1:
                bad = f'{f}: {t.count(old)} matches of {old[:50]!r}'
                break
            open(f'{R}/{f}', 'w').write(t.replace(old, new))
        if bad:
            print('ERR', s['id'], bad); continue
        sh(f'gofmt -l {R}')
        patch = sh('git diff', cwd=R).stdout
        env = dict(os.environ)
        pre = 'export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off; ' \
              f'cp {R}/go.mod {w}/x.mod; sort -u {R}/go.sum /opt/vp/plainkv.extra.sum > {w}/x.sum; export GOFLAGS="-mod=mod -modfile={w}/x.mod"; '
        b = sh(pre + 'go build ./...', cwd=R)
        if b.returncode:
            print('ERR', s['id'], 'build', b.stdout[-300:]); continue
        t = sh(pre + 'mkdir -p testdata; go test -vet=off -count=1 . ; cd bptree; go test -vet=off -count=1 $(go list -f \'{{join .GoFiles " "}} {{join .TestGoFiles " "}}\' .)', cwd=R)
        if t.stdout.count('ok  ') != 2:
            print('ERR', s['id'], 'existing tests fail', t.stdout[-300:]); continue
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            os.remove(f'{d}/{f}')
        open(d + '/patch.diff', 'w').write(patch)
        shutil.copy(f'{V}/tools/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/pkg', 'w').write(s['pkg'] + '\n')
        demo = s.get('demo')
        if demo:
            open(d + '/demo_test.go', 'w').write(demo)
        else:
            shutil.copy(f"{V}/tools/demo_{s['pkg']}_test.go", d + '/demo_test.go')
        if s['pkg'] == 'bptree':
            shutil.copy(f'{V}/tools/chk.go', d + '/chk.go')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dm = sh(f'bash {d}/demo.sh', cwd=R)
        if dm.returncode == 0:
            print('ERR', s['id'], 'demo passes with the change'); shutil.rmtree(d); continue
        sh('git checkout -q -- .', cwd=R)
        d0 = sh(f'bash {d}/demo.sh', cwd=R)
        if d0.returncode != 0:
            print('ERR', s['id'], 'demo fails on the unchanged tree', d0.stdout[-300:]); shutil.rmtree(d); continue
        msg = [l for l in dm.stdout.splitlines() if 'demo_test' in l or 'panic' in l or 'SIG' in l]
        print('KEPT', s['id'], (msg or dm.stdout.splitlines()[-2:])[0][:140])
    finally:
        shutil.rmtree(w)
