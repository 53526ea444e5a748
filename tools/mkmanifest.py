#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=c.get("technique", "property-based testing"), level=c.get("level", "exploration"),
            level_note=c.get("note", "Random exploration against an explicit oracle under address and undefined-behaviour sanitizers; no claim beyond the generated cases.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="Checks build their harnesses from /repo/include into /verif/build and remove them afterwards. No hooks in /repo: only fix: commits. See DESIGN.md.")
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
