#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
CODEC='bounded exhaustive enumeration of inputs and operation sequences run on the real code (explicit-state, stateless), compared with an independent reference model'
claimed={}
def c(id,technique,note):
    claimed[id]=dict(property=id,quick_cmd=f'./check {id}',thorough_cmd=f'VERIF_TIER=thorough ./check {id}',technique=technique,level='model_checking',level_note=note)
exec(open(os.path.join(here,'tools','claims.py')).read())
NA={}
m=dict(version=1,setup_cmd='./check build',
  checks=[claimed[i] for i in ids if i in claimed],
  not_applicable=[dict(property=i,reason=NA.get(i,'check not built yet')) for i in ids if i not in claimed],
  notes='All checks: ./check <ID> (VERIF_TIER=quick|thorough); ./check replay <file> reruns a recorded violation. See DESIGN.md.')
if HOOKS: m['hooks']=HOOKS
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
