"""validates MANIFEST.json, properties.jsonl and the evidence files against the schemas"""
import json, glob, os
import jsonschema
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/root/.vp/"
jsonschema.validate(json.load(open(H + "/MANIFEST.json")), json.load(open(S + "MANIFEST.schema.json")))
ev = json.load(open(S + "EVIDENCE.schema.json"))
for f in sorted(glob.glob(H + "/evidence/*.json")):
    jsonschema.validate(json.load(open(f)), ev)
ps = json.load(open(S + "PROPERTIES.schema.json"))
for l in open(H + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), ps)
print("ok")
