#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design/*.md and tables: fixed defects, planted bugs, costs."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
parts = [open(f).read().strip() + "\n" for f in sorted(glob.glob("tools/design/*.md"))]
text = "\n".join(parts)
fixed = ""
for x in json.load(open("known_findings.json"))["fixed"]:
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", x)
    fixed += f"| {m[1]} | {m[2][:7]} | {m[3]} |\n"
seeds = []
for d in os.listdir("seeded"):
    m = json.load(open(f"seeded/{d}/meta.json"))
    seeds.append((m["property"], d, m["needs"]))
seeds = "".join(f"| {p} | {d} | {n} |\n" for p, d, n in sorted(seeds))
costs = "".join(f"| {k} | {q} | {t} |\n" for k, (q, t) in sorted(json.load(open("tools/design/costs.json")).items()))
text = text.replace("@FIXED@\n", fixed).replace("@SEEDS@\n", seeds).replace("@COSTS@\n", costs)
open("DESIGN.md", "w").write(text)
