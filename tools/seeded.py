#!/usr/bin/env python3
"""Write SEEDED.md: the planted bugs and the checks which catch them."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {}
exec(open(os.path.join(root, "tools", "missed.py")).read(), MISSED)
MISSED = MISSED["MISSED"]
rows = []
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {MISSED.get(i, 'caught by the first version')} |")
with open(os.path.join(root, "SEEDED.md"), "w") as f:
    f.write("# Planted bugs\n\nEach was written from the text of its property and the code, and is caught by the quick check of that\n"
            "property (exit 1 and its VIOLATION line). The last column says what had to change when the check at\n"
            "first missed it.\n\n| bug | caught by | what it breaks | needs | check |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n")
