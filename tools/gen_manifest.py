#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry (tools/targets.py) and properties.jsonl."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import targets as T  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    c = T.CHECKS.get(i)
    if not c:
        na.append({"property": i, "reason": T.NOT_YET.get(i, "no monitor for it has been built")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": c.get("technique", "runtime monitoring: reference-model oracle over generated executions under ASan/UBSan"),
        "level": "exploration",
        "level_note": c["rule"][:900],
        "evidence_file": "evidence/%s.json" % i,
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "The checks compile the sources of /repo (working tree) against stand-ins for ROS 2 in /verif/shim; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
