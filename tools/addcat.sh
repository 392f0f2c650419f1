#!/bin/bash
# insert /tmp/new.py at the marker of catalog.py, regenerate and validate
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
p='tools/catalog.py';s=open(p).read();s=s.replace("# @@NEXT\n",open('/tmp/new.py').read());open(p,'w').write(s)
P
python3 tools/catalog.py && python3-vt - <<'P'
import json,jsonschema
m=json.load(open('MANIFEST.json'));jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
print(len(m['checks']),"checks")
P
