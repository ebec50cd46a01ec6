#!/usr/bin/env python3
"""writes ../MANIFEST.json from props.py"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
tech = "contract-based deductive verification: pre/postconditions and inferred, checked loop invariants on the real functions; obligations generated from the LLVM IR of the current source, discharged by z3"
m = {"version": 1, "setup_cmd": "bash engine/build.sh build/vfe", "checks": [], "not_applicable": []}
for i in ids:
    P = props.PROPS.get(i)
    if P:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "technique": P.get("technique", tech), "level": P["level"], "level_note": P["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NOT_APPLICABLE[i]})
m["notes"] = "No hooks in /repo: contracts are compiled together with the unmodified sources. Known defects: known_findings.txt."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
