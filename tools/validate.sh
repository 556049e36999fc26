#!/bin/bash
# schema check of the committed lists
cd "$(dirname "$0")/.." && python3-vt -c "
import json,jsonschema,glob
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),e)
print('valid')"
