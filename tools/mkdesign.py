#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    print("* `%s` (%s): %s. Needs %s." % (i, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
