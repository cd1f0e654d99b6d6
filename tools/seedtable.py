"""Writes the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/plant/caught.txt (lines 'ID check')."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = dict(l.split(None, 1) for l in open(V + "/tools/plant/caught.txt").read().splitlines() if l.strip())
rows = ["| id | property | caught by | what it takes | what breaks |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], c.get(i, "-").strip(), m["needs"], m["what_it_breaks"]))
p = V + "/DESIGN.md"; s = open(p).read()
a = "<!-- seeded -->\n"
s = s.replace("SEEDED_TABLE\n", a) if a not in s else s[:s.index(a) + len(a)]
open(p, "w").write(s + "\n".join(rows) + "\n")
