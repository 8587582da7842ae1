import json, sys, jsonschema
def V(s): return jsonschema.Draft202012Validator(json.load(open(s)))
ids=set(); bad=0
v=V('/root/.vp/PROPERTIES.schema.json')
for l in open('/verif/properties.jsonl'):
    p=json.loads(l)
    for e in v.iter_errors(p): bad+=1; print(p['id'],e.message)
    assert p['id'] not in ids; ids.add(p['id'])
    import re
    n=len(re.findall(r'\.(\s|$)',p['statement']))
    if n>3: print(p['id'],'sentences',n)
    import os
    for f in p['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(p['id'],'no file',f)
try:
    m=json.load(open('/verif/MANIFEST.json'))
    for e in V('/root/.vp/MANIFEST.schema.json').iter_errors(m): bad+=1; print('manifest',e.message)
    cl={c['property'] for c in m['checks']}; na={c['property'] for c in m.get('not_applicable',[])}
    print('unaccounted',ids-cl-na,'unknown',(cl|na)-ids)
except FileNotFoundError: pass
import glob
ev=V('/root/.vp/EVIDENCE.schema.json')
for f in glob.glob('/verif/evidence/*.json'):
    for e in ev.iter_errors(json.load(open(f))): bad+=1; print(f,e.message)
sys.exit(bad>0)
