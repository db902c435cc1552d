"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(os.path.join(V, "tools", "missed.json")))
rows = ["| change | needs | breaks | found |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"),
                                             "missed first: " + MISSED[d] if d in MISSED else m["property"]))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded table: tools/mkseeded.py -->\n", "<!-- end -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
