#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    p = registry.PROPS.get(i)
    if p is None:
        na.append(dict(property=i, reason="check not written yet"))
        continue
    checks.append(dict(property=i,
                       quick_cmd="python3 tools/check.py %s --tier quick" % i,
                       thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                       technique=p.get("technique", "property-based testing: generated operation histories against an explicit model, under sanitizers"),
                       level=p.get("level", "exploration"),
                       level_note=p.get("level_note", registry.LEVEL_NOTE),
                       evidence_file="evidence/%s.json" % i))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="See DESIGN.md. Checks build from /repo/include as it is at the time of the run, into build/ (git-ignored).")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "without")
