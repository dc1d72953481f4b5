#!/bin/sh
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in os.listdir('evidence'):
    if f.endswith('.json'): jsonschema.validate(json.load(open('evidence/'+f)), e)
print('valid')
P
