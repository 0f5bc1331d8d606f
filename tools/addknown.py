#!/usr/bin/env python3
"""addknown.py DUMP ID PROPERTY WHAT [KIND-SUBSTRING] [KEY-SUBSTRING]: append the dumped violations as one finding (used by hand)."""
import json, sys
dump, fid, prop, what = sys.argv[1:5]
ks = sys.argv[5] if len(sys.argv) > 5 else ""
kk = sys.argv[6] if len(sys.argv) > 6 else ""
cases = []
for l in open(dump):
    v = json.loads(l)
    if ks in v["kind"] and kk in v["key"]:
        cases.append({"key": v["key"], "kind": v["kind"]})
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(json.dumps({"id": fid, "property": prop, "what": what, "cases": cases}) + "\n")
print(len(cases), "cases")
