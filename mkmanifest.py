"""Regenerate MANIFEST.json from plan.py and properties.jsonl."""
import json
from plan import PLAN

props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p not in PLAN:
        continue
    c = PLAN[p]
    checks.append({
        "property": p,
        "quick_cmd": "/opt/venv/bin/python run.py %s quick" % p,
        "thorough_cmd": "/opt/venv/bin/python run.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c.get("note", "Exhaustive within the stated bounds on the real code of /repo; " + c["bounds"] +
                            ". Assumes: " + "; ".join(c["assumptions"])),
    })
na = [{"property": p, "reason": "check not built yet"} for p in props if p not in PLAN]
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python engine/buildext.py", "checks": checks, "not_applicable": na},
          open("MANIFEST.json", "w"), indent=1)
