"""Writes DESIGN.md from DESIGN.in.md, the list of repairs and the planted bugs (run by hand)."""
import json
import os
import glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
k = json.load(open(os.path.join(ROOT, "known_findings.json")))
fixes = "\n".join("* " + " – ".join([f.split()[2], f.split()[1].split("=")[1], f.split(None, 3)[3]]) for f in k["fixed"])
rows = ["| change | check | what it breaks | needs |", "|---|---|---|---|"]
n = 0
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json")), key=lambda f: json.load(open(f))["property"]):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    n += 1
for a, b in (("@@FIXES@@", fixes), ("@@NSEEDS@@", str(n)), ("@@SEEDS@@", "\n".join(rows))):
    t = t.replace(a, b)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
