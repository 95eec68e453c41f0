_t={}
def src(f):
    if f not in _t: _t[f]=open('/repo/'+f).read()
    return _t[f]
def fn(f,head):
    s=src(f); i=s.index('\nfunc '+head)+1; j=s.index('\n}\n',i)+3
    return s[i:j]
def m(f,head,*reps):
    b=fn(f,head); n=b
    for o,x in zip(reps[::2],reps[1::2]):
        k=0
        if isinstance(o,tuple): o,k=o
        p=-1
        for _ in range(k+1):
            p=n.find(o,p+1)
            assert p>=0,(head,o)
        n=n[:p]+x+n[p+len(o):]
    return (f,b,n)
