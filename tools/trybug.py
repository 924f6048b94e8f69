#!/usr/bin/env python3
"""trybug.py <seeded id>...: is the planted bug valid, and does its property's check catch it?
Applies the patch in /repo, builds, runs the stable tests, the demo and the check, and undoes it."""
import json, os, subprocess, sys, time, tempfile
V = "/verif"

def sh(c, cwd=None, t=1000):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace")
    return p.returncode, p.stdout

def undo():
    sh("git -C /repo checkout -- .")

def main():
    skip_base = "--nobase" in sys.argv
    only_check = "--check" in sys.argv
    for sid in [a for a in sys.argv[1:] if not a.startswith("--")]:
        d = f"{V}/seeded/{sid}"
        prop = json.load(open(d + "/meta.json"))["property"]
        res = {}
        assert not sh("git -C /repo status --porcelain")[1].strip(), "repo dirty"
        t0 = time.time()
        if not skip_base and not only_check:
            sh("bash /opt/vp/build.sh")
            tmp = tempfile.mkdtemp(); sh(f"cp -r {d}/. {tmp}; rm -f {tmp}/*.diff {tmp}/meta.json")
            rc, o = sh(f"bash {tmp}/demo.sh", "/repo"); res["demo_base"] = rc
            if rc: print(o[-1500:])
        try:
            rc, o = sh(f"git -C /repo apply {d}/patch.diff")
            if rc: print(sid, "patch does not apply", o); continue
            if not only_check:
                rc, o = sh("bash /opt/vp/build.sh"); res["build"] = rc
                if rc: print(o[-3000:])
                sh("bash /opt/vp/test.sh /tmp/t.json")
                r = json.load(open("/tmp/t.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                passed = set(r.get("passed", [])); miss = [x for x in base if x not in passed]
                res["tests_lost"] = miss
                tmp = tempfile.mkdtemp(); sh(f"cp -r {d}/. {tmp}; rm -f {tmp}/*.diff {tmp}/meta.json")
                rc, o = sh(f"timeout 280 bash {tmp}/demo.sh", "/repo"); res["demo_bug"] = rc
                res["demo_out"] = o[-200:]
            rc, o = sh(f"VERIF_SEED=1 python3 {V}/check.py {prop}"); res["check"] = rc
            res["check_out"] = o[-700:]
        finally:
            undo()
        ok = only_check or (res.get("demo_base", 0) == 0 and res["build"] == 0 and not res["tests_lost"] and res["demo_bug"] != 0)
        print(f"{sid} [{prop}]: {'VALID' if ok else 'INVALID'} {'CAUGHT' if res['check'] == 1 else 'MISSED rc=%d' % res['check']} {time.time()-t0:.0f}s")
        print(json.dumps(res, indent=1) if not ok or res["check"] != 1 or "-v" in sys.argv else "   " + res["check_out"].strip().splitlines()[-2][:300])
    if not only_check: sh("bash /opt/vp/build.sh")
main()
