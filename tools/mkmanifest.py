#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from kf import registry   # noqa

props = [json.loads(x) for x in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = registry.ABOUT[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="python3 run.py %s --thorough" % i,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="The check is not built yet."))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="All machinery is described in DESIGN.md; genuine defects are listed in known-findings.txt.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
