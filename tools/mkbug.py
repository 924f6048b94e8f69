#!/usr/bin/env python3
"""mkbug.py <id> <property> <demo kind: rlib|full> <needs> <what>  < edits.json
edits: [[file, old, new], ...]; writes seeded/<id>/patch.diff and meta.json; demo.rs is written separately"""
import json, os, subprocess, sys
sid, prop, needs, what = sys.argv[1:5]
edits = json.load(sys.stdin)
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
try:
    for f, old, new in edits:
        p = "/repo/" + f; s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], stderr=subprocess.DEVNULL)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
