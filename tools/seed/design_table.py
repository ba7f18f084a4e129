#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md section 7 from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f)); rows.append((m["property"], f.split("/")[-2], m["needs"]))
p = V + "/DESIGN.md"; s = open(p).read()
head = "| property | change | needs |\n|---|---|---|\n"
i = s.index(head) + len(head); j = s.index("\n\n", i)
s = s[:i] + "\n".join("| %s | %s | %s |" % r for r in sorted(rows)) + s[j:]
open(p, "w").write(s)
