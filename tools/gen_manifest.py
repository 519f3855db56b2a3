#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses registered in mc/*.go."""
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=set()
for f in glob.glob(V+'/mc/*.go'):
    have|=set(re.findall(r'(?:Prop: |reg\()"(C\d\d)"',open(f).read()))
LEVEL={'C02':'exploration','C03':'exploration','C06':'exploration','C30':'exploration','C31':'exploration','C17':'fault_enumeration'}
NOTE={
 'exploration':'every combination of the stated bounded input/operation choices is executed on the real code in three builds (AVX2, CPU features off, pure Go) and compared with an independent exact reference',
 'fault_enumeration':'every truncation point, failing write offset and chunking of the serialised forms within the stated shapes is executed on the real code',
 'model_checking':'every operation/argument/history choice (and, where threads are involved, every schedule within the preemption bound) up to the stated depth is executed on the real code and compared step by step with a reference model; small parameter sets, bounded depth',
}
TECH={'C14':'stateless model checking of the real code under a controlled scheduler (preemption bounding) plus race-detector runs of the same bodies',
 'C15':'stateless model checking of the real key generators under a controlled scheduler (preemption bounding), entry-by-entry oracle',
 'C23':'explicit enumeration of gate/party/subset choices and stateless schedule exploration of the parallel variants',
 'C17':'exhaustive fault-point enumeration (every truncation, short write and chunking) on the real code'}
checks=[];na=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if i not in have:
        na.append({'property':i,'reason':'no check built yet'}); continue
    lv=LEVEL.get(i,'model_checking')
    checks.append({'property':i,'quick_cmd':f'./check.sh {i} quick','thorough_cmd':f'./check.sh {i} thorough',
      'technique':TECH.get(i,'bounded exhaustive exploration of choice trees on the real implementation against a reference model'),
      'level':lv,'level_note':NOTE[lv]})
m={'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks',len(na),'n/a')
