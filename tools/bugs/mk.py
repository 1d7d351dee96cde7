#!/usr/bin/env python3
"""mk.py <id>... : builds /verif/seeded/<id> from specs*.py and confirms it in a scratch copy of /repo
(applies, compiles, passes the stable tests, demo 0 without and nonzero with)."""
import glob, json, os, shutil, subprocess, sys
here=os.path.dirname(os.path.abspath(__file__))
B={}
def bug(id,prop,needs,breaks,edits,demo):
    B[id]=dict(prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo)
for f in sorted(glob.glob(here+'/specs*.py')): exec(open(f).read())
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
W='/tmp/gsbug/repo'
def fresh():
    os.makedirs('/tmp/gsbug',exist_ok=True)
    if not os.path.isdir(W): sh('cp -a /repo '+W)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',cwd=W)
def tests():
    env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR=W+'/target')
    sh('rm -rf %s/target/debug/.fingerprint/groth-sahai-*'%W)
    r=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8',cwd=W,env=env)
    import re
    return sum(int(x) for x in re.findall(r'(\d+) passed',r.stdout)), sum(int(x) for x in re.findall(r'(\d+) failed',r.stdout)), r.stdout
for id in sys.argv[1:] or list(B):
    b=B[id]; fresh(); ok=True
    for e in b['edits']:
        p=W+'/'+e[0]; t=open(p).read(); n=e[3] if len(e)>3 else 1
        if t.count(e[1])<1 or (n and t.count(e[1])!=n and len(e)<=4):
            print(id,'EDIT MATCHES',t.count(e[1]),repr(e[1][:50])); ok=False; break
        if len(e)>4: # the e[4]-th occurrence
            parts=t.split(e[1]); k=e[4]; t=e[1].join(parts[:k+1])+e[2]+e[1].join(parts[k+1:])
        else: t=t.replace(e[1],e[2])
        open(p,'w').write(t)
    if not ok: continue
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=sh('git diff',cwd=W).stdout
    p,f,out=tests()
    if p!=96 or f:
        print(id,'TESTS',p,f); print('\n'.join(l for l in out.splitlines() if 'FAILED' in l or l.startswith('error'))[:800])
        i=out.find('error'); print(out[i:i+900] if p==0 else ''); shutil.rmtree(d); continue
    open(d+'/patch.diff','w').write(diff); open(d+'/demo.rs','w').write(b['demo'].strip()+'\n')
    for x in ('prelude.rs','demo.sh','lock'): shutil.copy(here+'/'+x,d)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    rp=sh(d+'/demo.sh',cwd=W); fresh(); rc=sh(d+'/demo.sh',cwd=W)
    good=rp.returncode==1 and rc.returncode==0
    print(id,'OK' if good else 'DEMO patched=%d clean=%d\n%s\n%s'%(rp.returncode,rc.returncode,rp.stdout[-1500:],rc.stdout[-600:]),flush=True)
    if not good: shutil.rmtree(d)
