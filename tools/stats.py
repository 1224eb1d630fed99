"""Prints what the evidence of the named properties says, briefly."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    d = json.load(open(os.path.join(here, "evidence", p + ".json")))
    c = d["coverage"]
    print(p, c["evaluations"], c["distinct_nontrivial"], d["wall_s"], d["violations"])
    for f, v in c["facets"].items():
        print("  ", f, v["evaluations"], v["distinct_nontrivial"], v["classes"])
