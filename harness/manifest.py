"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS, META
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = META[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 harness/check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py " + i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
