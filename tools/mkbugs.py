#!/usr/bin/env python3
"""mkbugs.py FILE [ids]: FILE defines B = {id: (property, needs, what it breaks, [(file, old, new)...], demo kind, demo source)}.
Writes seeded/<id>/; the edits are made in a scratch clone (/tmp/brepo), never in /repo."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/tmp/brepo"
if not os.path.exists(R): subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
def git(*a): return subprocess.run(["git", "-C", R, *a], stdout=subprocess.PIPE, text=True).stdout
git("fetch", "-q"); git("reset", "-q", "--hard", "origin/HEAD")
B = runpy.run_path(sys.argv[1])["B"]
for sid, (prop, needs, what, edits, kind, demo) in B.items():
    if sys.argv[2:] and sid not in sys.argv[2:]: continue
    d = f"{V}/seeded/{sid}"; os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = f"{R}/{f}"; s = open(p).read()
            assert s.count(old) == 1, (sid, f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(git("diff"))
    finally:
        git("checkout", "--", ".")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    k, *crates = kind.split(":")
    t = open(f"{V}/tools/demo/{k}.sh").read()
    if crates and k == "crate": t = t.replace("@CRATE@", crates[0])
    if k == "mirror":
        t = t.replace("@CRATES@", crates[0].replace(",", " ")).replace("@FLAGS@", crates[1] if crates[1:] else "")
        m = d + "/mirror"; os.makedirs(m, exist_ok=True)
        for f in ("mkmirror.py", "Cargo.lock"): shutil.copy(f"{V}/harness/{f}", m)
        shutil.copytree(f"{V}/harness/stubs", m + "/stubs", dirs_exist_ok=True, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    open(d + "/demo.sh", "w").write(t)
    if demo: open(d + "/demo.rs", "w").write(demo)
    print(sid)
