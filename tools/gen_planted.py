"""Renews DESIGN.md's list of planted bugs from seeded/*/meta.json and the
results of tools/mkseed.py (build/seeds.json)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(ROOT + "/build/seeds.json"))
by = {}
for i in sorted(os.listdir(ROOT + "/seeded")):
    p = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))["property"]
    by.setdefault(p, []).append(i + ("" if res.get(i, {}).get("caught") else " (missed)"))
text = "".join("| %s | %s |\n" % (p, ", ".join(by[p])) for p in sorted(by))
n = sum(map(len, by.values()))
missed = text.count("(missed)")
text = ("%d planted bugs are kept in `seeded/`; each is run against the check of its own\n"
        "property (several are seen by others too). Caught: %d.\n\n| caught by | bugs |\n|---|---|\n" % (n, n - missed)) + text
d = open(ROOT + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- end planted -->\n"
if a not in d:
    d += "\n## Planted bugs\n\n" + a + b
d = d[:d.index(a) + len(a)] + text + d[d.index(b):]
open(ROOT + "/DESIGN.md", "w").write(d)
