"""Rewrites the table of contracts in DESIGN.md (between the two markers) from the contracts and baseline.json."""
import json, os, sys
from collections import OrderedDict
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
import contracts

contracts.load_all()
base = json.load(open(ROOT + "/baseline.json"))
base = base.get("units", base)


def proved(uid):
    b = base.get(uid)
    return (b.get("status") if isinstance(b, dict) else b) == "proved"


d = OrderedDict()
for uid, u in contracts.UNITS.items():
    r = d.setdefault((uid.split("/")[0], uid.split("/")[1].split("[")[0]), [0, 0, " ".join((u.about or "").split())])
    r[0] += 1
    r[1] += proved(uid)
out = ["| property | contract | instances | proved | states |", "|---|---|---|---|---|"]
for k in sorted(d):
    n, p, doc = d[k]
    out.append(f"| {k[0]} | {k[1]} | {n} | {p} | {doc.replace('|', '/')} |")
s = open(ROOT + "/DESIGN.md").read()
a, b = "<!-- contracts -->\n", "<!-- /contracts -->"
i, j = s.index(a) + len(a), s.index(b)
open(ROOT + "/DESIGN.md", "w").write(s[:i] + "\n".join(out) + "\n" + s[j:])
s = open(ROOT + "/DESIGN.md").read()
rows = ["| bug | breaks | needs |", "|---|---|---|"]
for i in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['what_it_breaks'].replace('|', '/')[:220]} | {str(m['needs']).replace('|', '/')[:160]} |")
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(b)
open(ROOT + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
