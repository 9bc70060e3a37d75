#!/bin/bash
# regenerate and validate properties.jsonl, MANIFEST.json and DESIGN.md
cd "$(dirname "$0")/.." || exit 1
python3 tools/mkprops.py && python3 tools/mkmanifest.py && python3 tools/mkdesign.py || exit 1
python3-vt - <<'P'
import json,jsonschema
ps=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),ps)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("valid")
P
