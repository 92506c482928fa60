#!/usr/bin/env python3
"""writes the table of planted bugs at the end of DESIGN.md (caught.txt: lines "id  checks that catch it")"""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(root, "tools", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        w = l.split()
        if w:
            caught[w[0]] = " ".join(w[1:])
d = os.path.join(root, "DESIGN.md")
s = open(d).read()
m = "<!-- seeds -->\n"
head = s[: s.index(m) + len(m)]
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
n = 0
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    j = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, j["property"], j["needs"].replace("|", "\\|").replace("\n", " "), caught.get(i, "?")))
    n += 1
open(d, "w").write(head + "\n%d planted bugs.\n\n" % n + "\n".join(rows) + "\n")
