import json,jsonschema,sys,glob
r='/verif/'
S=lambda n: json.load(open('/root/.vp/%s.schema.json'%n))
jsonschema.validate(json.load(open(r+'MANIFEST.json')),S('MANIFEST'))
for l in open(r+'properties.jsonl'): jsonschema.validate(json.loads(l),S('PROPERTIES'))
for f in sorted(glob.glob(r+'evidence/*.json')):
    jsonschema.validate(json.load(open(f)),S('EVIDENCE')); print(f,'ok')
