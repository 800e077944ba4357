import json, jsonschema, os, sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S='/root/.vp/'
jsonschema.validate(json.load(open(R+'/MANIFEST.json')), json.load(open(S+'MANIFEST.schema.json')))
ps=json.load(open(S+'PROPERTIES.schema.json'))
for l in open(R+'/properties.jsonl'):
    jsonschema.validate(json.loads(l), ps)
es=json.load(open(S+'EVIDENCE.schema.json'))
for n in sorted(os.listdir(R+'/evidence')):
    jsonschema.validate(json.load(open(R+'/evidence/'+n)), es)
    print(n,'ok')
print('ok')
