"""Puts the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "/"), str(m["needs"]).replace("|", "/")))
f = V + "/DESIGN.md"
s = open(f).read()
s = re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(f, "w").write(s)
