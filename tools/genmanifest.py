import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
PENDING=set(sys.argv[1:])
NA={'N01':'PostgreSQL acceptance needs the grammar of PostgreSQL as the contract language; no verifier here has it, and a hand-written subset grammar would be a model. What contracts can say about shape is G01, C02 and C03.'}
note={}
for l in open(V+'/tools/notes.txt'):
    if ':' in l:
        k,v=l.strip().split(':',1); note[k]=v.strip()
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({'property':i,'reason':NA[i]}); continue
    if i in PENDING: na.append({'property':i,'reason':'contracts not written yet'}); continue
    checks.append({'property':i,'quick_cmd':'./check.sh '+i,'thorough_cmd':'./check.sh '+i,
      'technique':'contract-based deductive verification of the Go source (gov: per-function symbolic execution with loop summarisation, callee contracts, structural prover); failed obligations replayed by running the contract against the code',
      'level':'proof','level_note':note.get(i,note['default'])})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na,
 'notes':'Repairs of genuine defects are listed in known_findings.txt; no hooks are needed in /repo, contracts are laid over it at check time.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
