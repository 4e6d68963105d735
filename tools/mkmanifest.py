"""Source of MANIFEST.json (python3 tools/mkmanifest.py > MANIFEST.json): every property with a check is claimed."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import checks
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [],
     "not_applicable": [],
     "notes": "Specifications in spec/, drivers of the real code in vf/drivers, checks in vf/checks.py; see DESIGN.md. No hooks in /repo."}
for p in props:
    if p["id"] in checks.CHECKS:
        note = checks.NOTES.get(p["id"], {})
        m["checks"].append({"property": p["id"],
                            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": note.get("technique", "TLA+ specification checked with TLC; executions of the real code validated against it"),
                            "level": "model_checking",
                            "level_note": note.get("note", "The model is exhaustive within the stated bounds; the code is bound to it by replaying the model's transitions and by validating recorded executions, so a deviation outside of the explored executions is not seen.")})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
json.dump(m, sys.stdout, indent=1)
sys.stdout.write("\n")
