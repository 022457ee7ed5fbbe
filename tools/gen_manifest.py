#!/usr/bin/env python3
"""Writes ../MANIFEST.json from checks/ and the reasons below."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import na
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, nas = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        nas.append(dict(property=i, reason=na.REASON.get(i, na.DEFAULT)))
json.dump(dict(version=1, setup_cmd="python3 tools/facts.py", checks=checks, not_applicable=nas),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(nas), "not claimed")
