#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/table.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from table import TABLE, NA

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        t = TABLE[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 tools/check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                           evidence_file="evidence/%s.json" % i, technique=t["technique"],
                           level=t.get("level", "exploration"), level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet; random search applies and is planned")))
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
