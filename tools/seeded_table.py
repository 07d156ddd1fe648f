"""Rewrite the table of planted bugs at the end of DESIGN.md from the
meta.json files; the verdict column comes from tools/seeded_verdicts.json"""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(R, "seeded")
with open(os.path.join(R, "tools", "seeded_verdicts.json")) as f:
    verdict = json.load(f)
rows = ["| planted bug | property | needs | caught |", "|---|---|---|---|"]
for i in sorted(os.listdir(S)):
    with open(os.path.join(S, i, "meta.json")) as f:
        m = json.load(f)
    rows.append(f"| {i} | {m['property']} | {m['needs']} | "
                f"{verdict.get(i, '?')} |")
p = os.path.join(R, "DESIGN.md")
mark = "## Table of planted bugs"
with open(p) as f:
    head = f.read().split(mark)[0].rstrip()
with open(p, "w") as f:
    f.write(f"{head}\n\n{mark}\n\n" + "\n".join(rows) + "\n")
