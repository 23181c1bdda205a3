#!/usr/bin/env python3
# usage: tables.py [EVIDENCE-DIR]   writes the tables of DESIGN.md behind its last "## Tables" line
import json,glob,os,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev=sys.argv[1] if len(sys.argv)>1 else root+'/evidence'
o=['## Tables','','Quick checks, idle sandbox (states, transitions, executions = traces validated against the implementation):','','| id | executions | states | transitions | seconds | spaces (executions) |','|----|---|---|---|---|---|']
for i in range(1,21):
    f='%s/C%02d.json'%(ev,i)
    if not os.path.exists(f): continue
    d=json.load(open(f)); c=d['coverage']; sp=c['spaces']
    o.append('| %s | %d | %d | %d | %d | %s |'%(d['property'],sum(s['executions'] for s in sp),sum(s['choice_states']+s['model_states'] for s in sp),sum(s['transitions'] for s in sp),d['wall_s'],', '.join('%s %d%s'%(s['name'],s['executions'],'' if s['complete'] else ' (cut off)') for s in sp)))
o+=['','Planted bugs (each one is caught by the quick check of its property):','','| bug | property | needs |','|---|---|---|']
for f in sorted(glob.glob(root+'/seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    d=json.load(open(f)); o.append('| %s | %s | %s |'%(f.split('/')[-2],d['property'],d['needs'].replace('|','\\|')))
p=root+'/DESIGN.md'; s=open(p).read()
if '\n## Tables\n' in s: s=s[:s.index('\n## Tables\n')+1]
open(p,'w').write(s.rstrip('\n')+'\n\n'+'\n'.join(o)+'\n')
