"""python3-vt tools/validate.py: validate properties, manifest and evidence with the schemas."""
import json, glob, jsonschema
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
for l in open("/verif/properties.jsonl"):
    d = json.loads(l); jsonschema.validate(d, S("PROPERTIES"))
    assert d["statement"].count(". ") <= 2, d["id"]
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), S("MANIFEST"))
for f in glob.glob("/verif/evidence/*.json"):
    jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("ok")
