#!/usr/bin/env python3
"""Writes MANIFEST.json from gen.PROPS and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import gen
TECH = ("contract-based deductive verification of the real functions: pre/postcondition contracts "
        "discharged by Kani/CBMC (complete unwinding), with sampled native evaluation as a bounded cross-check")
checks, na = [], []
for l in open(HERE + "/properties.jsonl"):
    id = json.loads(l)["id"]
    if id in gen.PROPS:
        P = gen.PROPS[id]
        checks.append(dict(property=id, quick_cmd="python3 check.py %s --tier quick" % id,
                           thorough_cmd="python3 check.py %s --tier thorough" % id,
                           technique=P.get("technique", TECH), level=P["level"], level_note=P["note"]))
    else:
        na.append(dict(property=id, reason=gen.NA.get(id, "contracts not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na),
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
