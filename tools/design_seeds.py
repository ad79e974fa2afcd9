"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STAR = {"c14-three-atoms"}
rows = ["| change | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    n = f.split("/")[-2]
    rows.append("| %s%s | %s | %s |" % (n, "*" if n in STAR else "", d["needs"].replace("|", "/"), d.get("caught", d["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"@SEEDS@|<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
