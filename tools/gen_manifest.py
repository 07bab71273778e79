#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the harnesses present in props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/props/%s.cpp" % i):
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                       "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": t[0], "level": "exploration", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "the check of this property is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
