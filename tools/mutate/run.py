#!/usr/bin/env python3
"""run.py MUTS.jsonl OUT.jsonl [SAMPLE]: which of the changes build, pass the tests, and are noticed by gov."""
import sys,os,re,json,random,subprocess,shutil,threading,queue
V='/verif'
ENV=dict(os.environ)
for l in open('/opt/vp/env.sh'):
    m=re.match(r'export (\w+)=(.*)',l.strip())
    if m: ENV[m[1]]=m[2]
ms=[json.loads(l) for l in open(sys.argv[1])]
seen=set(); u=[]
for m in ms:
    k=(m['File'],m['Lo'],m['Hi'],m['New'])
    if k not in seen: seen.add(k); u.append(m)
random.seed(int(os.environ.get('SEED','1'))); random.shuffle(u)
if len(sys.argv)>3: u=u[:int(sys.argv[3])]
q=queue.Queue()
for m in u: q.put(m)
out=open(sys.argv[2],'a'); lock=threading.Lock()
def sh(c,cwd,t=120,**k):
    try: return subprocess.run(c,cwd=cwd,env=dict(ENV,**k),shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c,99,'timeout')
def work(w):
    r=f'/tmp/mut.{w}/r'; os.makedirs(f'/tmp/mut.{w}',exist_ok=True); shutil.rmtree(r,ignore_errors=True); sh(f'cp -a /repo {r}','/')
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=f'{r}/{m["File"]}'; s=open(p,'rb').read()
        open(p,'wb').write(s[:m['Lo']]+m['New'].encode()+s[m['Hi']:])
        try:
            b=sh('go build ./... && go vet ./builder ./stmt >/dev/null 2>&1; go build ./...',r)
            m['builds']=b.returncode==0
            if m['builds']:
                t=sh('go test -vet=off ./... 2>&1',r,60); m['passes']=t.returncode==0
                if m['passes']:
                    g=sh(f'{V}/bin/gov; {V}/bin/gov frame',r,300,GOV_REPO=r,GOV_VERIF=V)
                    bad=[l for l in g.stdout.split('\n') if l and not l.startswith('ok') and not re.match(r'363 of 363|\d+ functions',l)]
                    m['bad']=[x[:200] for x in bad[:5]]; m['nbad']=len(bad)
            with lock: out.write(json.dumps(m)+'\n'); out.flush()
        finally: open(p,'wb').write(s)
    shutil.rmtree(f'/tmp/mut.{w}')
ts=[threading.Thread(target=work,args=(i,)) for i in range(7)]
[t.start() for t in ts]; [t.join() for t in ts]
