"""properties, manifest and evidence against the schemas"""
import glob
import json
import os

import jsonschema

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {k: json.load(open(f"/root/.vp/{k}.schema.json")) for k in ("PROPERTIES", "MANIFEST", "EVIDENCE")}
for line in open(f"{ROOT}/properties.jsonl"):
    jsonschema.validate(json.loads(line), S["PROPERTIES"])
jsonschema.validate(json.load(open(f"{ROOT}/MANIFEST.json")), S["MANIFEST"])
for f in sorted(glob.glob(f"{ROOT}/evidence/*.json")):
    jsonschema.validate(json.load(open(f)), S["EVIDENCE"])
print("valid")
