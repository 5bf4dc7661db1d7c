#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the registry."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.registry import CHECKS, NOT_APPLICABLE  # noqa

with open(V + "/properties.jsonl", "w") as f:
    for c in CHECKS.values():
        f.write(json.dumps({
            "id": c["id"], "title": c["title"], "statement": c["statement"],
            "quantifier": {"over": c["over"], "text": c["text"]}, "why_tests_cant": c["why"],
            "anchors": {"files": c["files"], "mechanism": [{"name": a, "where": b} for a, b in c["mech"]]}}) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "MUU_VERIF_SPIN_WAIT_ITERATIONS", "enable": "-DMUU_VERIF_SPIN_WAIT_ITERATIONS=1 (added by the "
              "thread_pool harness builds in /verif; nothing else defines it)",
              "source_commits": ["1c0d2f2"]},
    "checks": [{
        "property": c["id"], "quick_cmd": "python3 run.py %s --tier quick" % c["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % c["id"], "evidence_file": "evidence/%s.json" % c["id"],
        "technique": c["technique"], "level": "model_checking", "level_note": c["note"]} for c in CHECKS.values()],
    "not_applicable": NOT_APPLICABLE,
    "notes": "see DESIGN.md; run.py all runs every check"
}, open(V + "/MANIFEST.json", "w"), indent=1)

# ---- DESIGN.md: the generated part
costs = {}
cp = V + "/vf/costs.json"
if os.path.exists(cp):
    costs = json.load(open(cp))
out = []
for c in CHECKS.values():
    out.append("### %s %s\n" % (c["id"], c["title"]))
    out.append("*Claim.* %s\n" % c["statement"])
    out.append("*Enumerated (over %s).* %s.\n" % (", ".join(c["over"]), c["text"].rstrip(".")))
    out.append("*Decided by.* %s: %s.\n" % (c["technique"], c["note"].rstrip(".")))
    out.append("*Why tests cannot settle it.* %s.\n" % c["why"].rstrip("."))
    src = sorted({x for j in c["jobs"] for x in j.src if x.startswith("h/")})
    k = costs.get(c["id"])
    line = "*Where.* %s; anchored in %s." % (", ".join("`%s`" % x for x in src), ", ".join("`%s`" % x for x in c["files"]))
    if k:
        line += " *Quick run:* %s states, %s transitions, %.0f s." % (k["states"], k["transitions"], k["wall"])
    out.append(line + "\n")
    if c["assumptions"]:
        out.append("*Assumes.* %s.\n" % "; ".join(c["assumptions"]))
d = open(V + "/DESIGN.md").read()
a, rest = d.split("<!-- generated by tools/gen.py: properties -->\n", 1)
b = rest.split("<!-- end -->", 1)[1]
open(V + "/DESIGN.md", "w").write(a + "<!-- generated by tools/gen.py: properties -->\n" + "\n".join(out) + "<!-- end -->" + b)
print(len(CHECKS), "checks")
