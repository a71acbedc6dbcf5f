#!/usr/bin/env python3
"""Writes MANIFEST.json from areas.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from areas import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        assert i in NOT_APPLICABLE, i
        continue
    c = CHECKS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py %s --tier quick" % i,
        "thorough_cmd": "python3 run.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "property-based testing: generated inputs against a reference model"),
        "level": "exploration",
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --selftest",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]}
                       for p in props if p["id"] not in CHECKS],
    "notes": "No hooks in /repo. Every check compiles the sources it needs from /repo's working tree "
             "with AddressSanitizer and drives them in forked workers; see DESIGN.md.",
}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
