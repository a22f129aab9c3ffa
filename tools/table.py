"""Fills section 8 of DESIGN.md from seeded/*/meta.json and the results file (lines: ID check seconds [class])."""
import glob, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(R + "/tools/bugs/results.txt"):
    p = l.split()
    if len(p) >= 2:
        res[p[0]] = l.strip().split(None, 1)[1]
out = ["## 8. Planted changes", "",
       "Each change was written from the text of its property; `tools/bugs/try.sh` applies it to /repo, builds, runs the stable tests and the demonstration, then the quick check of",
       "its property. Seconds are the wall time until the check stopped.", "",
       "| change | property | needs | caught by the quick check |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], res.get(i, "?")))
s = open(R + "/DESIGN.md").read()
s = s[:s.index("## 8. Planted changes")] + "\n".join(out) + "\n"
open(R + "/DESIGN.md", "w").write(s)
