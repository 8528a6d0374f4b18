#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, n = checks.NOTES[i]
        out["checks"].append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                                  technique=t, level="model_checking", level_note=n))
    else:
        out["not_applicable"].append(dict(property=i, reason="no check yet"))
json.dump(out, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
