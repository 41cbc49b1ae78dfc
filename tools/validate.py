"""Validates properties.jsonl, MANIFEST.json and the evidence files (run with python3-vt)."""
import json, os, glob, jsonschema
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/root/.vp/"
ps = json.load(open(S + "PROPERTIES.schema.json"))
rows = [json.loads(x) for x in open(R + "/properties.jsonl")]
for r in rows:
    jsonschema.validate(r, ps)
jsonschema.validate(json.load(open(R + "/MANIFEST.json")), json.load(open(S + "MANIFEST.schema.json")))
for f in glob.glob(R + "/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), json.load(open(S + "EVIDENCE.schema.json")))
print("valid", len(rows))
