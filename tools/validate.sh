#!/bin/bash
cd "$(dirname "$0")/.." && python3 tools/mkmanifest.py && python3-vt - <<'P'
import json,jsonschema,glob
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)), s)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    try: jsonschema.validate(json.loads(l), s)
    except jsonschema.ValidationError as e: print(e.message)
print("valid")
P
