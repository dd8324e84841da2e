"""Writes the table of planted bugs into DESIGN.md."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = V + "/tools/seed-results.txt"
if os.path.exists(p):
    for l in open(p):
        a = l.split()
        if len(a) >= 2: res[a[0]] = a[1]
rows = ["| bug | property | needs | result |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "/"), res.get(i, "?")))
s = open(V + "/DESIGN.md").read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
