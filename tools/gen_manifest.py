#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from vf/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from vf.registry import CHECKS, NOT_APPLICABLE, NOTES
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {"version": 1, "setup_cmd": "python3 -c \"from vf import core; core.java_classes()\"", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS and i not in NOT_APPLICABLE:
        m["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": "TLA+ specification: TLC model checking, and TLC trace validation of the real code on spec-generated behaviours",
            "level": "model_checking",
            "level_note": NOTES.get(i, "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
