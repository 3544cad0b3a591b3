#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 
}
TECH = "TLA+ specification model-checked with TLC; traces recorded from the code validated against it with TLC"
notes = json.load(open(V + "/tools/level_notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i):
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="bin/check %s quick" % i, thorough_cmd="bin/check %s thorough" % i,
            technique=n.get("technique", TECH), level="model_checking",
            level_note=n.get("note", "The specification is checked exhaustively within small bounds; the implementation is bound to it on the recorded executions only.")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bin/setup",
    hooks=dict(guard="verif", enable="go build -tags verif ./growforest", source_commits=["b6efe917b5ac44ab4cf6bfb4bf3d4d61512e29ac"]),
    checks=checks, not_applicable=na,
    notes="TLA+ (TLC). See DESIGN.md. bin/check <ID> [quick|thorough]; findings in KNOWN_FINDINGS.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
