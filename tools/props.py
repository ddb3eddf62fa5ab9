#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from proplist import PROPS, NOT_APPLICABLE, LEVEL_NOTE

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("solver-based checking of the real code: symbolic execution of the Go SSA of the current tree "
        "(runtime library and code generated by the current generator), path conditions and assertions decided by an SMT "
        "solver (z3, quantifier-free bit-vectors and floating point), counterexamples replayed on the compiled real code")
for p in PROPS:
    if not p["na"] and not os.path.isdir(os.path.join(root, "harness", p["id"].lower())):
        p["na"] = "The check for this property is not built yet."
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(rec["title"]) <= 80, rec["title"]
        f.write(json.dumps(rec) + "\n")
checks = []
for p in PROPS:
    if p.get("na"):
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} quick",
        "thorough_cmd": f"./check {p['id']} thorough",
        "technique": TECH,
        "level": "model_checking",
        "level_note": LEVEL_NOTE + " " + p.get("note", ""),
    })
na = [{"property": p["id"], "reason": p["na"]} for p in PROPS if p.get("na")] + NOT_APPLICABLE
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na},
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
