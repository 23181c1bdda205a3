#!/usr/bin/env python3
# writes /verif/MANIFEST.json
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M='model_checking'; F='fault_enumeration'
exec(open(os.path.join(root,'tools','claims.py')).read())
checks=[]
for id,level,tech,note in CLAIMS:
    checks.append(dict(property=id,quick_cmd=f'bash run.sh {id} quick',thorough_cmd=f'bash run.sh {id} thorough',
        technique=tech,level=level,level_note=note))
ids=[json.loads(l)['id'] for l in open(os.path.join(root,'properties.jsonl'))]
have={c['property'] for c in checks}
na=[dict(property=i,reason=NA.get(i,'check not built yet')) for i in ids if i not in have]
m=dict(version=1,setup_cmd='bash setup.sh',checks=checks,not_applicable=na,
  notes='No hooks in /repo: the checks build the working tree in a scratch GOPATH; the scheduling points of C15 are inserted into that scratch copy.')
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
