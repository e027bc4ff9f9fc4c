#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from meta import META, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as fp:
    for m in META:
        fp.write(json.dumps({"id": m["id"], "title": m["title"], "statement": m["statement"],
            "quantifier": {"over": m["over"], "text": m["quant"]},
            "why_tests_cant": m["why"],
            "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]]}}) + "\n")
checks, na = [], []
for m in META:
    pid = m["id"]
    if pid in PROPS:
        checks.append({"property": pid, "quick_cmd": "python3 mc/check.py %s quick" % pid,
            "thorough_cmd": "python3 mc/check.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": m["tech"], "level": "model_checking", "level_note": m["note"]})
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "check not built yet")})
man = {"version": 1, "setup_cmd": "python3 mc/setup.py", "checks": checks, "not_applicable": na,
       "notes": "All checks compile the harnesses in /verif/harness against /repo's working tree and enumerate a bounded space exhaustively; see DESIGN.md. No hooks in /repo are needed."}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(man, fp, indent=1)
    fp.write("\n")
print(len(META), "properties,", len(checks), "checks")
