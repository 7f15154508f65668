import json,jsonschema
m=json.load(open('/verif/MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json')))
import glob
for f in glob.glob('/verif/evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('valid')
