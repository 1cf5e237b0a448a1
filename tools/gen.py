#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); top=os.path.dirname(here)
ns={}
exec(compile(open(here+'/props.py').read(),'props.py','exec'),ns)
P=ns['P']; NA=ns['NA']
LEVEL='other'
with open(top+'/properties.jsonl','w') as f:
    for p in P+NA:
        d={'id':p['id'],'title':p['title'],'statement':p['statement'],
           'quantifier':{'over':p['over'],'text':p['quant']},
           'why_tests_cant':p['tests'],
           'anchors':{'files':p['files'],'mechanism':[{'name':a,'where':b} for a,b in p['mech']]}}
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        assert p['statement'].count('. ')<=2,(p['id'],p['statement'])
        f.write(json.dumps(d)+'\n')
m={'version':1,
   'setup_cmd':'cd /verif && ./setup.sh',
   'checks':[{'property':p['id'],
              'quick_cmd':'cd /verif && ./check.sh %s quick'%p['id'],
              'thorough_cmd':'cd /verif && ./check.sh %s thorough'%p['id'],
              'technique':p['tech'],'level':LEVEL,'level_note':p['note']} for p in P],
   'not_applicable':[{'property':p['id'],'reason':p['reason']} for p in NA]}
json.dump(m,open(top+'/MANIFEST.json','w'),indent=1); open(top+'/MANIFEST.json','a').write('\n')
print(len(P),'claimed',len(NA),'not applicable')

# DESIGN.md
import re
head=open(here+'/design_head.md').read()
out=[head,'## Properties\n']
for p in P:
    out.append('### %s %s\n'%(p['id'],p['title']))
    out.append(p['statement']+'\n')
    out.append('*Anchored in:* '+'; '.join('%s (`%s`)'%(a,b) for a,b in p['mech'])+'.\n')
    out.append('*Decided by:* '+p['tech']+'.\n')
    out.append('*Reach:* '+p['note']+'\n')
    out.append('*Why tests do not settle it:* '+p['tests']+'\n')
if NA:
    out.append('## Not applicable\n')
    for p in NA:
        out.append('- **%s %s.** %s'%(p['id'],p['title'],p['reason']))
    out.append('')
S=[]
def seed(id,prop,edits,needs,breaks,go=None,sh=None,also=''): S.append((id,prop,breaks,needs))
exec(compile(open(here+'/seeds.py').read(),'seeds.py','exec'))
out.append('## Planted changes\n\nEach is caught by the check of its property (`seed.py` confirms it).\n\n| id | property | what it breaks | what it needs |\n|---|---|---|---|')
for s in S:
    if os.path.isdir(top+'/seeded/'+s[0]): out.append('| %s | %s | %s | %s |'%s)
out.append('')
open(top+'/DESIGN.md','w').write('\n'.join(out))
