#!/usr/bin/env python3
# regenerates MANIFEST.json from tools/table.py and properties.jsonl
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
from table import TABLE
props=[json.loads(l) for l in open(H+'/../properties.jsonl')]
NA=getattr(__import__('table'),'NA',{})
ch=[];na=[]
for p in props:
    i=p['id']
    if i in TABLE:
        t=TABLE[i]
        ch.append(dict(property=i,quick_cmd='python3 run.py %s --quick'%i,thorough_cmd='python3 run.py %s --thorough'%i,
          evidence_file='evidence/%s.json'%i,
          technique=t.get('technique','exhaustive bounded state-space exploration of the real code (BFS over all operation histories) against a reference model' if t['level']=='model_checking' else 'exhaustive bounded enumeration of inputs/configurations executed on the real code against a reference model'),
          level=t['level'],level_note=t.get('note','Holds for every case inside the stated bounds: '+t['rule']+'. Trusts the compiler and the reference model in harness/'+t['src']+'.')))
    else: na.append(dict(property=i,reason=NA.get(i,'check not built yet')))
m=dict(version=1,setup_cmd='bash setup.sh',checks=ch,not_applicable=na,notes='See DESIGN.md. No hooks are needed in /repo: all checks drive the public API. run.py rebuilds library and harness from /repo/src on every run in a scratch directory.')
json.dump(m,open(H+'/../MANIFEST.json','w'),indent=1)
print(len(ch),'checks',len(na),'na')
