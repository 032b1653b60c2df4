#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    p = json.load(open(m))["property"]
    rows.setdefault(p, []).append(os.path.basename(os.path.dirname(m))[4:])
n = sum(map(len, rows.values()))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"catches each of the \d+", f"catches each of the {n}", t)
t = re.sub(r"(\| \| caught \|\n\|---\|---\|\n)(?:\| C.*\n)+", lambda m: m.group(1) + "".join(f"| {p} | {', '.join(v)} |\n" for p, v in sorted(rows.items())), t)
open(V + "/DESIGN.md", "w").write(t)
print(n)
