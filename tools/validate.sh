#!/bin/bash
# validate MANIFEST.json, properties.jsonl and evidence against the schemas
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json,glob,jsonschema
S=lambda n: json.load(open('/root/.vp/%s.schema.json'%n))
jsonschema.validate(json.load(open('MANIFEST.json')),S('MANIFEST'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),S('PROPERTIES'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),S('EVIDENCE'))
print('valid')
P
