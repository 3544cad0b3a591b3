#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in glob.glob(os.path.join(here, "seeded", "*", "meta.json")):
    m = json.load(open(p))
    rows.append((m["property"], os.path.basename(os.path.dirname(p)), m["what_it_breaks"], m.get("caught_by", m["property"])))
t = "| Planted bug | Breaks | What it does | Caught by |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % (i, p, w.replace("|", "/"), c) for p, i, w, c in sorted(rows))
f = os.path.join(here, "DESIGN.md")
s = open(f).read()
s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + t + "<!-- /seeded -->", s, flags=re.S)
open(f, "w").write(s)
