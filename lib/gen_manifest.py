import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "python3 /verif/run.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "Harnesses compile /repo's working tree out of tree (content-hash cache in /verif/.cache); no hooks in /repo are needed."}
for q in props:
    i = q["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 /verif/run.py {i} --tier quick", "thorough_cmd": f"python3 /verif/run.py {i} --tier thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"], "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
