#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks present."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {}
exec(open(os.path.join(root, "tools", "how.py")).read(), HOW)
HOW = HOW["HOW"]
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(root, "checks", i.lower() + ".py")) and i in HOW:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
            "technique": "property-based testing: " + HOW[i][0],
            "level": "exploration",
            "level_note": HOW[i][1],
        })
    else:
        na.append({"property": i, "reason": "check not written yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks: python3 run.py <id>; see DESIGN.md. Replay: python3 run.py <id> --replay FILE. No hooks in /repo: the checks import giddy from /repo's working tree.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
