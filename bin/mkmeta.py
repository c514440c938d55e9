#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from meta/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "meta"), os.path.join(V, "checks")]
from props import PROPS
from registry import CHECKS
checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
        if p["id"] in CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"],
                           "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                           "technique": p["technique"], "level": CHECKS[p["id"]]["level"], "level_note": p["level_note"]})
        else:
            na.append({"property": p["id"], "reason": p["na"]})
m = {"version": 1, "setup_cmd": "bash bin/build_driver.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks read the compiler's MIR of the unmodified sources", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "static analysis only: nothing of /repo is executed by a check; see DESIGN.md"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
