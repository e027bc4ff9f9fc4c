#!/usr/bin/env python3
"""Writes DESIGN.md from the tables, the last evidence, the seeds' results and /repo's history (never run by a check)."""
import sys, os, json, subprocess, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/mc", V + "/tools"]
from meta import META
from props import PROPS
from design_notes import NOTES
BASE = "f3b4716"
o = [open(V + "/tools/design_head.md").read()]
o.append("## Properties\n")
for m in META:
    i = m["id"]; sp, orc, op = NOTES[i]
    o.append("### %s  %s\n" % (i, m["title"]))
    o.append("* **Explored**: " + sp); o.append("* **Oracle**: " + orc)
    if op: o.append("* **Left open**: " + op)
    try:
        d = json.load(open("%s/evidence/%s.json" % (V, i))); c = d["coverage"]
        o.append("* **Quick run**: %s states, %s transitions, %s cases replayed on the real code, %d units, about %.0f s on 8 cores." % (format(c["states"], ","), format(c["transitions"], ","), format(c["traces_validated_against_impl"], ","), len(c["units"]), d["wall_s"]))
    except Exception: pass
    o.append("* **Why tests cannot**: " + m["why"] + "\n")
o.append(open(V + "/tools/design_tail.md").read())
o.append("## Planted bugs and the checks that catch them\n\n| planted bug | property | needs | caught by the property's quick check |\n|---|---|---|---|")
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    s = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    o.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], res.get(s, "not yet run")))
o.append("\n## Defects found and repaired (fix: commits in /repo)\n")
k = json.load(open(V + "/known_findings.json"))
for l in k["fixed"]: o.append("* " + l)
o.append("\n## Recorded, not repaired\n")
for f in k["findings"]: o.append("* " + json.dumps(f))
open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
