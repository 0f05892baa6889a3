#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, na.json and properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.load(open(f"{root}/checks.json"))
na = json.load(open(f"{root}/na.json"))
props = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
TECH = "bounded symbolic execution of the Go SSA of /repo with SMT (z3; fallback z3-new and cvc5), counterexamples replayed natively"
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [],
     "notes": "One engine (symx) re-encodes /repo's current source on every run. Counterexamples count only when the natively compiled code reproduces them."}
m["hooks"] = {"guard": "none", "enable": "no hooks: nothing in /repo is instrumented; harnesses use exported API or are laid over package main with -overlay", "source_commits": []}
for p in props:
    if p in checks:
        c = checks[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash run.sh {p} quick", "thorough_cmd": f"bash run.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json", "technique": c.get("technique", TECH), "level": "model_checking",
            "level_note": c.get("note", "Holds for every input within the bounds stated in the evidence; trusts the engine's translation (validated on sampled paths each run), z3 and the library stubs listed in the evidence.")})
    else:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "no check built yet")})
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
missing = [p for p in props if p not in checks and p not in na]
print("checks", len(m["checks"]), "na", len(m["not_applicable"]), "without reason:", missing)
