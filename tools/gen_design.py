#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_head.md, the planted bugs and build/matrix.json (development tool)."""
import os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design_head.md").read()
import re
def cases(m):
    q = re.search(r"QUICK_CASES = (\d+)", open(V + "/harness/props/%s.cpp" % m.group(2)).read()).group(1)
    return m.group(1) + "{:,}".format(int(q)).replace(",", " ") + " |"
t = re.sub(r"(?m)^(\| (C\d\d) \|.*\| )[\d ]+(?: cases)? \|$", cases, t)
mp = V + "/build/matrix.json"; mat = json.load(open(mp)) if os.path.exists(mp) else {}
t += """
## 6. Planted bugs and which checks catch them

Each is in `seeded/<id>/` (patch, demonstration, metadata), written from a property and the code, and
confirmed to build, to pass the 26 tests and to fail only its demonstration. "caught at" is the
generated case (seed 1, quick tier) at which the property's own check stopped; other checks that also
reported it are listed where they were run.

| planted bug | property | what it needs | caught at | also caught by |
|---|---|---|---|---|
"""
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d); m = json.load(open(d + "/meta.json")); r = mat.get(i, {}); p = m["property"]
    own = r.get(p, "?"); own = own if not own.startswith("rc") else "**missed**"
    others = ", ".join(k for k, v in sorted(r.items()) if k != p and not v.startswith("rc"))
    t += "| %s | %s | %s | %s | %s |\n" % (i, p, m["needs"].replace("|", "/").replace("\n", " "), own, others)
tail = V + "/tools/design_tail.md"
if os.path.exists(tail): t += open(tail).read()
open(V + "/DESIGN.md", "w").write(t)
