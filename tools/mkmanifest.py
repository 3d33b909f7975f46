"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
NA = json.load(open(os.path.join(V, "tools", "na.json")))
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick",
                 "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
                 "technique": t["technique"], "level": "other", "level_note": t["note"]} for p, t in sorted(TECH.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
