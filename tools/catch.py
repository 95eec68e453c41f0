#!/usr/bin/env python3
"""catch.py [id...]: which checks report which planted change (analyzer built once, scratch copy of /repo)."""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
w = tempfile.mkdtemp(prefix='catch', dir='/tmp/scratch')
sh(f'cd {V}/analyzer && GOFLAGS=-mod=mod GOPROXY=off go build -o {w}/pkv .')
os.makedirs(w + '/v'); os.symlink(V + '/analyzer', w + '/v/analyzer')
for f in ('known_findings.txt',):
    if os.path.exists(f'{V}/{f}'): os.symlink(f'{V}/{f}', f'{w}/v/{f}')
props = sorted(c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks'])
sh(f'cp -a /repo {w}/repo')
R = w + '/repo'
missed = []
for i in ids:
    d = f'{V}/seeded/{i}'
    if not os.path.exists(d + '/meta.json'): continue
    prop = json.load(open(d + '/meta.json'))['property']
    sh('git checkout -q -- .', cwd=R)
    a = sh(f'git apply {d}/patch.diff', cwd=R)
    if a.returncode: print(i, 'DOES NOT APPLY'); continue
    env = dict(os.environ, REPO_DIR=R, VERIF_DIR=w + '/v', VERIF_TIER='quick')
    o = sh(f'{w}/pkv check ' + (prop if os.environ.get('OWN') else 'all'), env=env)
    hit = [l.split('property=')[1].split()[0] for l in o.stdout.splitlines() if l.startswith('VIOLATION')]
    ok = prop in hit
    if not ok: missed.append(i)
    print(i, prop, 'CAUGHT' if ok else 'MISSED', 'by', ','.join(hit), flush=True)
shutil.rmtree(w)
print('missed:', missed)
