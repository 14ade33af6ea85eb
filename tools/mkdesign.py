"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded_results.txt"""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(V, "tools", "seeded_results.txt")
if os.path.exists(p):
    for l in open(p):
        a = l.split()
        if len(a) >= 3:
            res.setdefault(a[0], {})[a[1]] = a[2]
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    i = f.split("/")[-2]
    c = sorted(k for k, v in res.get(i, {}).items() if v == "1")
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], ", ".join(c) or "nothing"))
t = open(os.path.join(V, "DESIGN.md")).read()
if "TABLE\n" in t:
    t = t.replace("TABLE\n", "<!-- table -->\n\n<!-- end -->\n")
t = re.sub(r"<!-- table -->.*<!-- end -->", lambda m: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", t, flags=re.S)
open(os.path.join(V, "DESIGN.md"), "w").write(t)
