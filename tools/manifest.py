#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, properties.jsonl and not_applicable.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{V}/checks.json"))
na = json.load(open(f"{V}/not_applicable.json")) if os.path.exists(f"{V}/not_applicable.json") else []
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
ids = [p["id"] for p in props]
assert len(set(ids)) == len(ids)
for i in ids:
    assert (i in checks) != any(n["property"] == i for n in na), i
assert set(checks) <= set(ids)
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "contract-based deductive verification: Verus contracts on the functions extracted from /repo on every run",
            "level": "proof",
            "level_note": checks[i].get("note", "Every obligation of the contracts is discharged by Verus/Z3 on /repo's current source. ")
            + " Trusted: the stub contracts of dependencies listed in the evidence, the extractor, Verus and Z3. A seeded bounded comparison of the real code with the property runs beside it and is never counted as proved.",
        }
        for i in ids
        if i in checks
    ],
    "not_applicable": na,
    "notes": "Exit 2 of a check: neither the proof nor the bounded stand-in could be run on this tree. When /repo's text no longer fits an anchor of a contract, the bounded stand-in decides and the evidence says so (level exploration).",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(na), "not applicable")
