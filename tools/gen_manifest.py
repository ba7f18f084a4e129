#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from table import TABLE, LEVEL
props = [json.loads(l) for l in open(os.path.join(H, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TABLE[i].get("technique", "property-based testing over generated inputs"), "level": LEVEL, "level_note": TABLE[i].get("note", "Generated-input search against an independent oracle; bounded by the case counts and sizes recorded in the evidence.")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "..", "MANIFEST.json"), "a").write("\n")
