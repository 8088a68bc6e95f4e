#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (bug -> checks that reported it)."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(D + "/tools/caught.json"))
L = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(D + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (D, s)))
    L.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(s, ["not tested"])) or "**missed**"))
p = D + "/DESIGN.md"
t = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(L) + "\n" + t[j:])
