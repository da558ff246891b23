#!/usr/bin/env python3
"""refactor.py [NAME...]: applies behaviour-preserving edits (tools/refactors) to scratch copies and verifies them."""
import sys,os,re,subprocess,tempfile,shutil
from concurrent.futures import ThreadPoolExecutor
V='/verif'; GOV=os.environ.get('GOVBIN','/verif/bin/gov')
ENV=dict(os.environ)
for l in open('/opt/vp/env.sh'):
    m=re.match(r'export (\w+)=(.*)',l.strip())
    if m: ENV[m[1]]=m[2]
items={}
for f in sorted(os.listdir(V+'/tools/refactors')):
    t=open(V+'/tools/refactors/'+f).read()
    for blk in re.split(r'^# (?=[\w-]+$)',t,flags=re.M)[1:]:
        n,b=blk.split('\n',1); items[n]=b
want=sys.argv[1:] or list(items)
def sh(c,cwd,**k): return subprocess.run(c,cwd=cwd,env=dict(ENV,**k),shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
def one(n):
    w=tempfile.mkdtemp(prefix='rf.',dir='/tmp'); r=w+'/r'
    if os.environ.get('KEEP'): w='/tmp/rf_'+n; os.makedirs(w,exist_ok=True); r=w+'/r'; shutil.rmtree(r,ignore_errors=True)
    try:
        sh(f'cp -a /repo {r}','/')
        for fm in re.finditer(r'^== (\S+)\n((?:<<<\n.*?^===\n.*?^>>>\n)+)',items[n],re.M|re.S):
            s=open(f'{r}/{fm[1]}').read()
            for e in re.finditer(r'^<<<\n(.*?)^===\n(.*?)^>>>\n',fm[2],re.S|re.M):
                a,b=e[1],e[2]
                if s.count(a)==0: a,b=a[:-1],b[:-1]
                if s.count(a)!=1: return f'{n}: old text {s.count(a)} times in {fm[1]}:\n{a}'
                s=s.replace(a,b)
            open(f'{r}/{fm[1]}','w').write(s)
        if not sh('git diff --stat',r).stdout.strip(): return n+': no change'
        t=sh('go build ./... && go test ./... 2>&1 | grep -v "no test files"',r)
        if t.returncode or 'FAIL' in t.stdout: return n+': does not build or pass\n'+t.stdout[-1500:]
        if os.environ.get('KEEP'): return r
        g=sh(f'{GOV}; {GOV} frame',r,GOV_REPO=r,GOV_VERIF=V)
        bad=[l for l in g.stdout.split('\n') if l and not l.startswith('ok')]
        return n+': '+' | '.join(x[:300] for x in (bad if len(bad)<6 else bad[:4]+['... %d more' % (len(bad)-5)]+bad[-1:]))
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(w)
with ThreadPoolExecutor(6) as ex:
    for o in ex.map(one,want): print(o,flush=True)
