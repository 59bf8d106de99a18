#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
D = os.path.join(HERE, "..", "DESIGN.md")
S = os.path.join(HERE, "..", "seeded")
MARK = "\n### Table of planted bugs\n"
text = open(D).read()
text = text.split(MARK)[0].rstrip("\n") + "\n" + MARK + "\n"
text += "Every row was confirmed by `tools/seeds.py`: the quick check of the named property, and it alone was run, exits 1 on it.\n\n"
text += "| planted bug | caught by | what it needs | what it breaks |\n|---|---|---|---|\n"
for id in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, id, "meta.json")))
    c = lambda s: s.replace("|", "\\|").replace("\n", " ")
    text += "| %s | %s | %s | %s |\n" % (id, m["property"], c(m["needs"]), c(m["what_it_breaks"]))
open(D, "w").write(text)
