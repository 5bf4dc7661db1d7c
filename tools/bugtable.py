#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Planted change | Property | Needs | Caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| `{i}` | {m['property']} | {m['needs']} | quick check of {m['property']} |")
s = open(V + "/DESIGN.md").read()
a = s.index("| Planted change |")
e = s.find("\n\n", a)
s = s[:a] + "\n".join(rows) + ("\n" if e < 0 else s[e:])
open(V + "/DESIGN.md", "w").write(s)
