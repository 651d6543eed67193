"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
st = json.load(open(os.path.join(R, "vlib/seeds.json")))
rows = ["| bug | needs | before | now |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    b, n = st.get(d, ["?", "?"])
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"], b, n))
p = os.path.join(R, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
