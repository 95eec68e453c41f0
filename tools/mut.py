#!/usr/bin/env python3
"""mut.py FILE [name...]: quick edits (not planted bugs) and what the checks say about them.
FILE defines M = [(name, expect, [(file, old, new), ...])]; expect: a property id, or '' for an edit which keeps the behaviour."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
V='/verif'
ns={}; exec(open(sys.argv[1]).read(), ns); M=ns['M']; only=set(sys.argv[2:])
def sh(c,cwd=None,env=None): return subprocess.run(c,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
w=tempfile.mkdtemp(prefix='mut',dir='/tmp/scratch')
b=sh(f'cd {V}/analyzer && GOFLAGS=-mod=mod GOPROXY=off go build -o {w}/pkv .')
if b.returncode: print(b.stdout); sys.exit(1)
def run(m):
    name,exp,edits=m
    d=tempfile.mkdtemp(prefix='m',dir=w); R=d+'/repo'; os.makedirs(d+'/v')
    os.symlink(V+'/analyzer',d+'/v/analyzer'); os.symlink(V+'/known_findings.txt',d+'/v/known_findings.txt')
    sh(f'cp -a /repo {R}; git -C {R} checkout -q -- .')
    for f,o,n in edits:
        t=open(f'{R}/{f}').read()
        if t.count(o)!=1: return name,exp,'BADEDIT %d %r'%(t.count(o),o[:40]),''
        open(f'{R}/{f}','w').write(t.replace(o,n))
    fs={f for f,_,_ in edits}; P=os.environ.get("PROPS","all")
    if P=='exp': P=exp or 'all'
    if P=='auto':
        by={'key':'C03 C06 C10 C16 C17 C21','value':'C03 C06 C10 C17 C21','leaflist':'C01 C10 C11 C12','iterator':'C02 C03 C08 C14 C15','fprint':'C08 C23','leaf':'C10 C12 C13 C16 C22','nonleaf':'C10 C12 C13 C16 C22',
            'bptree':'C01 C06 C08 C09 C10 C11 C12 C14 C16 C22','hashmap':'C01 C02 C03 C04 C07 C08 C09 C10 C18 C19 C20 C21','dict':'C04 C05 C07 C20','ordereddict':'C04 C05 C06 C14'}
        P={p for f in fs for p in by[os.path.basename(f)[:-3]].split()}
        P=' '.join(sorted(P))
    o=sh(f'{w}/pkv check {P}',env=dict(os.environ,REPO_DIR=R,VERIF_DIR=d+'/v'))
    shutil.rmtree(d)
    hit=[l.split('property=')[1].split()[0] for l in o.stdout.splitlines() if l.startswith('VIOLATION')]
    bad=[l for l in o.stdout.splitlines() if '[' in l and not l.startswith(('OK','NOTE','VIOL'))]
    und=sum(l.startswith('NOTE') for l in o.stdout.splitlines())
    err='' if 'property=' in o.stdout else o.stdout[-300:]
    return name,exp,hit,(err or (bad[0] if bad else ''))[:230]+(' undecided=%d'%und if und else '')
good=0; tot=0
with cf.ThreadPoolExecutor(int(os.environ.get("JOBS","3"))) as ex:
    for name,exp,hit,msg in ex.map(run,[m for m in M if not only or m[0] in only]):
        tot+=1
        ok=(hit==[] if exp=='' else exp in hit)
        good+=ok
        if not ok or only or os.environ.get('ALL'): print('ok ' if ok else 'XX ',name,'expect',exp or 'quiet','got',hit,msg,flush=True)
print(good,'of',tot)
shutil.rmtree(w)
