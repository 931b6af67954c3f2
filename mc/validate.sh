#!/bin/bash
# Validate committed metadata and the last evidence against the task's schemas.
cd "$(dirname "$0")/.." || exit 2
/opt/veriftools/pyvenv/bin/python - <<'PY'
import json, glob, jsonschema
S='/root/.vp/'
m=json.load(open(S+'MANIFEST.schema.json')); jsonschema.validate(json.load(open('MANIFEST.json')), m)
p=json.load(open(S+'PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), p)
e=json.load(open(S+'EVIDENCE.schema.json'))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)), e)
print('schemas ok')
PY
