#!/usr/bin/env python3
"""rewrites the tables of fixes and planted bugs in DESIGN.md (between the marker comments)"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAUGHT = json.load(open(V + "/tools/caught.json"))
fx = json.load(open(V + "/known_findings.json"))["findings"]
t1 = ["| property | commit | what failed |", "|---|---|---|"]
for f in fx:
    w = re.sub(r"^fixed: property=\S+ \S+ ", "", f["what"])
    t1.append("| %s | %s | %s |" % (f["property"], f.get("commit", "open"), w))
t2 = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d)
    m = json.load(open(d + "/meta.json"))
    t2.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], CAUGHT.get(i, "?")))
s = open(V + "/DESIGN.md").read()
for tag, t in (("FIXES", t1), ("SEEDS", t2)):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    s = s.replace("@%s@" % tag, a + "\n" + b)
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(t) + "\n" + s[j:]
s = re.sub(r"\d+ genuine defects", "%d genuine defects" % len(fx), s)
open(V + "/DESIGN.md", "w").write(s)
