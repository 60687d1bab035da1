#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + "/lib")
import meta, jobs
with open(V + "/properties.jsonl", "w") as f:
    for m in meta.M: f.write(json.dumps({k: v for k, v in m.items() if not k.startswith("_")}) + "\n")
checks = [dict(property=m["id"], quick_cmd="python3 check.py %s quick" % m["id"], thorough_cmd="python3 check.py %s thorough" % m["id"], evidence_file="evidence/%s.json" % m["id"],
    technique="symbolic execution of the compiled LLVM IR, path conditions and assertions decided by a bit-vector/floating-point SAT solver", level="model_checking", level_note=m["_note"]) for m in meta.M if m["id"] in jobs.PROPS]
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in meta.NA],
    notes="See DESIGN.md. No hooks are needed in /repo: everything is reached through the public API. Defects found and repaired are the fix: commits in /repo; known_findings.json lists what remains."), open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
s = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(json.load(open(V + "/MANIFEST.json")), s)
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"): jsonschema.validate(json.loads(l), s)
for m in meta.M:
    assert len(m["title"]) <= 80, m["title"]
    if m["id"] not in jobs.PROPS and m["id"] not in [p for p, r in meta.NA]: print("unclaimed", m["id"])
for e in os.listdir(V + "/evidence"): jsonschema.validate(json.load(open(V + "/evidence/" + e)), json.load(open("/root/.vp/EVIDENCE.schema.json")))
print(len(meta.M), "properties,", len(checks), "checks")
