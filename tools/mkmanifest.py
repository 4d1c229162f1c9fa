import json, sys
sys.path.insert(0, "/verif")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NOTES = {}
exec(open("/verif/tools/notes.py").read())
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": n.get("technique", TECH), "level": n.get("level", "proof"), "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "the check is not built yet")} for p in props if p["id"] not in CLAIMED],
     "notes": "No hooks in /repo: the obligations are generated on every run from the source in /repo's working tree."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks")
