#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contracts on the real Go functions, obligations generated by gvc from the current source and discharged by z3/cvc5; bounded replay against an oracle for concrete inputs"
# property -> level note
CLAIMED = json.load(open(os.path.join(V, "tools", "claimed.json")))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": CLAIMED[i].get("technique", TECH),
                       "level": CLAIMED[i].get("level", "proof"), "level_note": CLAIMED[i]["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
