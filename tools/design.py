#!/usr/bin/env python3
"""Writes DESIGN.md from design_body.md, known_findings.json and the planted bugs (run by hand)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design_body.md").read()
kf = json.load(open(V + "/known_findings.json"))
t = t.replace("@@NFIX@@", str(len(kf["fixed"])))
t = t.replace("@@FIXES@@", "\n".join("* " + e.replace("fixed: property=", "") for e in kf["fixed"]))
rows = []
missed = set(open(V + "/tools/missed.txt").read().split()) if os.path.exists(V + "/tools/missed.txt") else set()
for d in sorted(glob.glob(V + "/seeded/*/")):
    n = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), "missed" if n in missed else m["property"]))
t = t.replace("@@NBUG@@", str(len(rows)))
t = t.replace("@@BUGS@@", "| change | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
