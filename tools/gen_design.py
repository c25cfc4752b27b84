#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (between its two marker lines)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = set(open(os.path.join(V, "tools/first_missed.txt")).read().split())
rows = ["| bug | what it breaks | when it shows |", "|---|---|---|"]
n = 0
one = lambda s: re.sub(r"\s+", " ", s).replace("|", "\\|").strip()
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f)); n += 1
    rows.append(f"| {i}{' †' if i in FIRST_MISSED else ''} | {one(d['what_it_breaks'])} | {one(d['needs'])} |")
rows.append("")
rows.append(f"{n} bugs; each is caught by the check of the property it is named after. † missed when planted, caught since the check was strengthened ({len([1 for f in glob.glob(os.path.join(V,'seeded/*/meta.json')) if os.path.basename(os.path.dirname(f)) in FIRST_MISSED])}).")
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
