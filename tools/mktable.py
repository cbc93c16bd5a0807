"""Regenerates the table of planted bugs in DESIGN.md from /verif/seeded/*/meta.json (documentation only)."""
import json, os, re
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it needs to manifest |", "|---|---|---|"]
for i in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(D + "/seeded/" + i + "/meta.json"))
    n = " ".join(m["needs"].split()).replace("|", "/")
    rows.append("| %s | %s | %s |" % (i, m["property"], n))
p = D + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
if "@TABLE@" in s:
    s = s.replace("@TABLE@", "<!-- table -->\n" + t + "\n<!-- /table -->")
else:
    s = re.sub(r"<!-- table -->.*?<!-- /table -->", lambda _: "<!-- table -->\n" + t + "\n<!-- /table -->", s, flags=re.S)
open(p, "w").write(s)
