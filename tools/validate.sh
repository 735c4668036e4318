#!/bin/bash
# regenerates the manifest and checks it against the schemas
cd "$(dirname "$0")/.." && python3 tools/make_manifest.py && python3-vt - <<'P'
import json,jsonschema
m=json.load(open('MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
n=0
for l in open('properties.jsonl'):
    n+=1; jsonschema.validate(json.loads(l),s)
print(n,'properties',len(m['checks']),'checks')
P
