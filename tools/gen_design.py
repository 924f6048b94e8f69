#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md: the table of properties and the list of seeded bugs"""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
d = open(V + "/DESIGN.md").read()
def put(a, b, text):
    global d
    i, j = d.index(f"<!-- {a} -->"), d.index(f"<!-- {b} -->")
    d = d[:i] + f"<!-- {a} -->\n" + text + d[j:]
rows = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    c = PROPS.get(p["id"])
    if not c:
        rows.append(f"**{p['id']}** {p['title']}. *Not claimed*, see `not_applicable` in MANIFEST.json.\n")
        continue
    specs = sorted({j["spec"] for j in c["jobs"] if "spec" in j})
    if any(s.startswith("poseidon/") for s in specs):
        specs = ["poseidon.qnt with instances spec/poseidon/*"]
    tl = sorted({j["tla"] for j in c["jobs"] + c.get("tlc", []) if "tla" in j})
    t = "; TLC: " + ", ".join(f"`{x}.tla`" for x in tl) if tl else ""
    rows.append(f"**{p['id']}** {p['title']}.  \n*Specification:* {', '.join('`' + s + '`' for s in specs)}{t}. *Rule:* {c['rule']}. "
                f"*Assumes:* {'; '.join(c.get('assumptions', []))}.\n")
put("table", "end", "\n" + "\n".join(rows) + "\n")
bugs = []
res = {}
if os.path.exists(V + "/seeded/RESULTS.json"):
    res = json.load(open(V + "/seeded/RESULTS.json"))
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = m.split("/")[-2]
    x = json.load(open(m))
    bugs.append(f"| {n} | {x['property']} | {res.get(n, '?')} | {x['what_it_breaks']} — needs {x['needs']} |")
if bugs:
    put("bugs", "endbugs", "\nEach is a patch with a demonstration in `seeded/`; \"caught\" means that the property's quick check exits 1 on it.\n\n| bug | property | result | what |\n|---|---|---|---|\n" + "\n".join(bugs) + "\n")
open(V + "/DESIGN.md", "w").write(d)
