#!/usr/bin/env python3
"""rewrites MANIFEST.json from the checks that exist (checks/<ID>.cc) and checks/notes.json"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(f"{V}/checks/notes.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.cc") and i in notes:
        n = notes[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "technique": n["technique"], "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": notes.get(i, {}).get("na", "check not built yet")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
