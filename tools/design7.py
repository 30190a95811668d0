#!/usr/bin/env python3
"""design7.py   rewrites the table of planted changes in DESIGN.md from seeded/"""
import collections
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for b in sorted(os.listdir(V + "/seeded")):
    by[json.load(open("%s/seeded/%s/meta.json" % (V, b)))["property"]].append(b)
s = open(V + "/DESIGN.md").read()
a, z = "<!-- planted -->\n", "<!-- end -->\n"
t = a + "| check | changes it catches (%d in all) |\n|---|---|\n" % sum(map(len, by.values()))
t += "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by)) + z
i, j = s.index(a), s.index(z) + len(z)
open(V + "/DESIGN.md", "w").write(s[:i] + t + s[j:])
