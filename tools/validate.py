import json,jsonschema
m=json.load(open('/verif/MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json')))
