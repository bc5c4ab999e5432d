#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(root, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in CLAIMS:
        t, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "sh check.sh " + p, "thorough_cmd": "sh check.sh " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no static decision procedure has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
