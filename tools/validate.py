#!/usr/bin/env python3-vt
import json,jsonschema,glob,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids=[]
for l in open(H+'/properties.jsonl'):
    o=json.loads(l); jsonschema.validate(o,s); ids.append(o['id'])
m=json.load(open(H+'/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
claimed=[c['property'] for c in m['checks']]; na=[c['property'] for c in m.get('not_applicable',[])]
assert sorted(claimed+na)==sorted(ids),(set(ids)^set(claimed+na))
es=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob(H+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),es)
print('valid',len(claimed),'claimed',len(na),'n/a')
