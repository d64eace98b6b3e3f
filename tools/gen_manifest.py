#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py (claimed properties) and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
cs, na = [], []
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, note = checks.TECH[i]
        cs.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason="no check yet (under construction)"))
json.dump(dict(version=1, setup_cmd="true", checks=cs, not_applicable=na,
     notes="No hooks in /repo are needed: scheduling points come from compiler instrumentation, clock and pthread calls from link-time interposition. Commits in /repo are repairs only (fix:), listed in known_findings.txt."),
     open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "claimed", len(na), "not")
