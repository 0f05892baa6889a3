#!/usr/bin/env python3
"""Writes DESIGN.md from design/head.md, design/tail.md, properties.jsonl, checks.json, known_findings.json and seeded/."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
c = json.load(open(f"{root}/checks.json"))
na = json.load(open(f"{root}/na.json"))
O = json.load(open(f"{root}/tools/design/oracles.json"))
out = open(f"{root}/tools/design/head.md").read()
out += """## 3. The properties

Level everywhere: bounded symbolic execution of the real code with solver verdicts (manifest level `model_checking`).
Cost: 5 to 100 s each (quick, 8 cores). Thorough runs the same harnesses with larger budgets, the further
bounds given in brackets, and the harnesses named `_Thorough`. Why it reaches what tests cannot: the quantifier of each property
(properties.jsonl, `why_tests_cant`) is decided for all values within the bounds, not sampled.

"""
for p in P:
    x = c.get(p["id"])
    if not x:
        out += f"**{p['id']} {p['title']}.** Not applicable: {na.get(p['id'])}\n\n"
        continue
    o = O[p["id"]]
    out += f"**{p['id']} {p['title']}.** `{x['pkg'].replace('verif/','')}/{p['id'].lower()}.go`{', simulated OS' if x.get('os') else ''}{', threads' if x.get('threads') else ''}. *Bounds:* {x['bounds']}. *{o[0].upper()}{o[1:]}.* *Outside:* {x['outside_bounds']}." + (f" *Assumes* {'; '.join(x['assumptions'])}." if x.get("assumptions") else "") + "\n\n"
tail = open(f"{root}/tools/design/tail.md").read()
fixes = "\n".join("* " + f.replace("fixed: property=", "") for f in json.load(open(f"{root}/known_findings.json"))["fixed"])
times = {}
try: times = json.load(open(f"{root}/tools/design/seedtimes.json"))
except FileNotFoundError: pass
rows = ["| bug | needs | breaks | quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(f"{root}/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {times.get(d, 'caught')} |")
out += tail.replace("@FIXES@", fixes).replace("@SEEDS@", "\n".join(rows))
open(f"{root}/DESIGN.md", "w").write(out)
