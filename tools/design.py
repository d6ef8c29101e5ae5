#!/usr/bin/env python3
"""Writes DESIGN.md: the fixed text below plus one section per property from gen.py's table and the seeded bugs' catch table."""
import json
import os
import re
import runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = runpy.run_path(os.path.join(HERE, "tools", "gen.py"))
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
out.append("## The properties and how each is decided\n")
extra = json.load(open(os.path.join(HERE, "tools", "design_extra.json")))
for i, title, st, over, qt, why, files, mech, how in ns["P"]:
    src = open(os.path.join(HERE, "mc", i.lower() + ".py")).read()
    v = {}
    for name in ("ASSUMPTIONS", "BOUNDS"):
        exec(re.search(r"^%s = .*?(?=\n\S|\n\n)" % name, src, re.M | re.S).group(0), v)
    out.append("### %s %s\n\n%s\n" % (i, title, st))
    out.append("- **Enumerated:** %s. The check %s." % (qt, how))
    out.append("- **Oracle:** %s" % extra[i])
    out.append("- **Bounds (quick):** %s." % v["BOUNDS"]["quick"])
    out.append("- **Bounds (thorough):** %s." % v["BOUNDS"]["thorough"])
    out.append("- **Assumes:** %s." % "; ".join(v["ASSUMPTIONS"]))
    out.append("- **Beyond the tests because** %s.\n" % why)
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
cat = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(cat):
    c = json.load(open(cat))
    out.append("| planted change | property | needs | caught by |\n|---|---|---|---|")
    for k in sorted(c):
        out.append("| %s | %s | %s | %s |" % (k, c[k]["property"], c[k]["needs"].replace("|", "/"), ", ".join(c[k]["caught_by"]) or "none"))
    out.append("")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
