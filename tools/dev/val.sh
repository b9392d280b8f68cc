cd /verif && python3 tools/gen_meta.py && python3-vt - <<'P'
import json,jsonschema
m=json.load(open('MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):jsonschema.validate(json.loads(l),s)
print(len(m['checks']),'checks ok')
P
