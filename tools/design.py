"""DESIGN.md from tools/DESIGN.in.md and the planted bugs (development only)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(f"{HERE}/tools/caught.json"))
for bug in sorted(os.listdir(f"{HERE}/seeded")):
    m = json.load(open(f"{HERE}/seeded/{bug}/meta.json"))
    rows.append(f"| {bug} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(bug, m['property'])} |")
text = open(f"{HERE}/tools/DESIGN.in.md").read().replace("@@TABLE@@", "\n".join(rows))
open(f"{HERE}/DESIGN.md", "w").write(text)
