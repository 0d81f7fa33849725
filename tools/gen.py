#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from props_base import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows, checks = [], []
for p in PROPS + NA:
    assert len(p["title"]) <= 80, p["id"]
    rows.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
    })
    assert p["statement"].count(". ") <= 2, ("sentences", p["id"])
ids = [r["id"] for r in rows]
assert len(ids) == len(set(ids))
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 sa/check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 sa/check.py %s" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    })
man = {
    "version": 1,
    "setup_cmd": "python3 sa/facts.py setup",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Static analysis only: a rustc_private driver dumps the type-checked MIR of every workspace "
             "crate of /repo's current tree; Python rules decide each property on it. No hooks in /repo.",
}
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(r) + "\n" for r in rows))
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NA), "not applicable")
