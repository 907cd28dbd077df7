#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry: one entry per property that has a check."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        s = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique=s["technique"], level="exploration", level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=registry.NOT_BUILT.get(i, "check not built yet; the property is observable at run time and is next in line")))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
