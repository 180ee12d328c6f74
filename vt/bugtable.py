"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and what is known to catch them."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d[:-1]), m["needs"], m.get("caught_by", m["property"])))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"\| bug \|.*?\n\n", lambda _: "| bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n\n", s, count=1, flags=re.S)
open(p, "w").write(s)
