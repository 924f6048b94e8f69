#!/usr/bin/env python3
"""check.py <property>             decide one property on /repo's current tree
   check.py --setup                build everything once
   check.py --replay <file>        run one stored counterexample again
   check.py --all                  every property (development)

For each property: rebuild the driver from /repo's working tree, let Quint generate behaviours
of the specification (checking its invariants on the way) and, where configured, let TLC
explore the small-scope models exhaustively; replay every behaviour on the real code; compare.
Seed from VERIF_SEED, tier from VERIF_TIER.  Exit 0 held, 1 violation, 2 the check itself failed."""
import concurrent.futures, fcntl, glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
sys.path.insert(0, HERE)
from checks import PROPS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
# a check must answer within 900 s
BUDGET = float(os.environ.get("VERIF_BUDGET", "800" if TIER == "quick" else "5400"))


def left():
    return max(20.0, BUDGET - (time.time() - T0))


def fail(msg):
    print(f"check failed: {msg}", flush=True)
    sys.exit(2)


def sh(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=env, cwd=cwd, errors="replace")


SIMD = {"": "", "avx2": " -C target-feature=+avx2",
        "avx512": " -C target-feature=+avx2,+avx512bw,+avx512cd,+avx512dq,+avx512f,+avx512vl"}


def runs_here(simd):
    """does this machine execute the instructions of that build?"""
    need = {"": [], "avx2": ["avx2"], "avx512": ["avx2", "avx512bw", "avx512cd", "avx512dq", "avx512f", "avx512vl"]}[simd]
    try:
        flags = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except (OSError, AttributeError):
        return not need
    return all(n in flags for n in need)


def build(simd=""):
    """cargo is incremental; the lock keeps concurrent checks from rebuilding twice"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO") or k.startswith("RUST"):
                del env[k]
        home = env.get("HOME") or "/root"
        env.update(HOME=home, PATH=f"/usr/local/bin:/usr/bin:/bin:{home}/.cargo/bin:" + env.get("PATH", ""),
                   RUSTUP_TOOLCHAIN="1.88.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                   CARGO_TARGET_DIR=os.path.join(BUILD, "target" + ("-" + simd if simd else "")),
                   RUSTFLAGS="--cfg eigen_verif -A warnings" + SIMD[simd])
        for k in ("CARGO_HOME", "RUSTUP_HOME"):
            if k in os.environ:
                env[k] = os.environ[k]
        r = sh([sys.executable, os.path.join(HERE, "harness", "mkmirror.py")], env=env)
        if r.returncode:
            fail("mkmirror: " + r.stdout[-2000:])
        cmd = ["cargo", "build", "--release", "--offline", "-p", "driver"]
        if simd == "avx512":
            # these crates name the AVX-512 intrinsics, which this toolchain has as an unstable feature
            env["RUSTC_BOOTSTRAP"] = "fields,starky,driver"
            cmd += ["--features", "avx512"]
        r = sh(cmd, env=env,
               cwd=os.path.join(BUILD, "ws"))
        if r.returncode:
            fail("build of the driver against /repo failed:\n" + r.stdout[-6000:])
        exe = os.path.join(env["CARGO_TARGET_DIR"], "release", "driver")
        # a private copy: a concurrent check may relink the original
        mine = os.path.join(BUILD, "run", f"driver-{os.getpid()}{'-' + simd if simd else ''}")
        os.makedirs(os.path.dirname(mine), exist_ok=True)
        shutil.copy2(exe, mine)
        return mine


def quint_job(job, n, out, seed):
    k = job.get("k", 1)
    cmd = ["quint", "run", "--backend", "typescript", os.path.join(SPEC, job["spec"]),
           "--main", job.get("main", job["spec"].split("/")[-1][:-4]),
           "--init", job.get("init", "init").replace("@n", str(n)),
           "--step", job.get("step", "step"),
           "--n-traces", str(job.get("traces", 1)), "--max-samples", str(job.get("traces", 1)),
           "--max-steps", str(job["steps"]), "--seed", str(seed), "--verbosity", "1",
           "--out-itf", out]
    if job.get("inv"):
        cmd += ["--invariant", job["inv"]]
    try:
        r = sh(cmd, timeout=left())
    except subprocess.TimeoutExpired:
        return f"quint timed out: {' '.join(cmd)}"
    if r.returncode:
        return f"quint: {' '.join(cmd)}\n{r.stdout[-3000:]}"
    return None


def tlc_job(job, run, out=None):
    """An exhaustive small-scope model; returns (states, distinct, error).  With `out`, every
    behaviour it prints is written to the traces out-0, out-1, ... for replay."""
    d = os.path.join(run, "tlc-" + job.get("cfg", job["tla"]) + "-" + os.path.basename(out or "x"))
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(SPEC, "tla", "*.tla")):
        shutil.copy(f, d)
    cfg = job.get("cfg", job["tla"]) + ".cfg"
    shutil.copy(os.path.join(SPEC, "tla", cfg), d)
    cmd = ["tlc", "-workers", str(job.get("workers", 4)), "-deadlock", "-config", cfg, job["tla"] + ".tla"]
    # deep recursion in the models
    env = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss64m")
    log = os.path.join(d, "out.txt")
    try:
        with open(log, "w") as f:
            rc = subprocess.run(cmd, timeout=left(), cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT).returncode
    except subprocess.TimeoutExpired:
        return 0, 0, f"tlc timed out: {job['tla']} {cfg}"
    says, behaviours = [], []
    with open(log, errors="replace") as f:
        for line in f:
            if line.startswith('"['):
                if out:
                    behaviours.append(line)
            else:
                says.append(line)
    says = "".join(says)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", says)
    if rc or not m or "No error has been found" not in says:
        return 0, 0, f"tlc {job['tla']} {cfg}: {says[-3000:]}"
    if out:
        if not behaviours:
            return 0, 0, f"tlc {job['tla']} {cfg}: no behaviours"
        behaviours.sort()
        n = min(job.get("procs", 8), len(behaviours))
        for i in range(n):
            states = []
            for line in behaviours[i::n]:
                states.append({"last": {"op": "restart" if states else "init"}})
                # an event, or a whole state
                states += [e if "last" in e else {"last": e} for e in json.loads(json.loads(line))]
            with open(f"{out}-{i}.itf.json", "w") as f:
                json.dump({"states": states}, f)
    return int(m[-1][0]), int(m[-1][1]), None


def known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]


def replay(exe, module, traces, out, work, limit=240, threads=8, env=None, cpus=0):
    cmd = [exe, "replay", module, "--out", out, "--work", work, "--limit", str(limit),
           "--threads", str(threads), *traces]
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=left(), env=e,
                           preexec_fn=(lambda: os.sched_setaffinity(0, sorted(os.sched_getaffinity(0))[:cpus])) if cpus else None)
    except subprocess.TimeoutExpired:
        return None, "driver timed out"
    if r.returncode == 0 and os.path.exists(out):
        with open(out) as f:
            return json.load(f), None
    if r.returncode == -9:
        return None, "driver was killed (memory?)"
    if r.returncode < 0:
        # the code under test took the whole process down
        bads = []
        for p in glob.glob(os.path.join(work, "w*", "progress")):
            step, trace = open(p).read().split(" ", 1)
            bads.append({"key": "abort", "msg": f"process died with signal {-r.returncode}: {r.stderr[-500:]}",
                         "step": int(step), "trace": trace, "op": "", "event": ""})
        return {"traces": 0, "steps": 0, "ops": {}, "distinct": 0, "samples": {}, "bads": bads}, None
    return None, f"driver exit {r.returncode}: {r.stderr[-2000:]}"


def check(pid):
    prop = PROPS[pid]
    run = os.path.join(BUILD, "run", pid)
    if os.path.isdir(run):
        shutil.rmtree(run)
    os.makedirs(run)
    jobs = [dict(j, **j.get("thorough", {})) if TIER == "thorough" else dict(j) for j in prop["jobs"]]
    for j in jobs:
        # more samples of the random jobs of cheap checks
        if TIER == "quick" and not {"tla", "cpus", "threads", "fixed_seed"} & set(j) and "init" not in j and "Tall" not in j.get("step", ""):
            j["procs"] = j.get("procs", 1) * prop.get("boost", 1)
    skipped = sorted({j["simd"] for j in jobs if not runs_here(j.get("simd", ""))})
    jobs = [j for j in jobs if j.get("simd", "") not in skipped]
    tlcs = [j for j in prop.get("tlc", []) if TIER == "thorough" or not j.get("thorough_only")]
    total = dict(traces=0, steps=0, distinct=0, ops={}, samples=[])
    bads, errors, tl = [], [], []
    exes = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fb = {a: ex.submit(build, a) for a in {j.get("simd", "") for j in jobs}}
        fts = [(j, ex.submit(tlc_job, j, run)) for j in tlcs]
        fq = []
        for ji, j in enumerate(jobs):
            if "tla" in j:
                if j.get("procs", 8):
                    fts.append((j, ex.submit(tlc_job, j, run, os.path.join(run, f"j{ji}"))))
                continue
            for n in range(j.get("procs", 1)):
                out = os.path.join(run, f"j{ji}-{n}.itf.json")
                seed = (SEED * 1000003 + ji * 7919 + n * 104729) % 2**31 if not j.get("fixed_seed") else 1 + n
                fq.append(ex.submit(quint_job, j, n * j.get("stride", j["steps"]), out, max(seed, 1)))
        for f in fq:
            if f.result():
                errors.append(f.result())
        for a, f in fb.items():
            try:
                exes[a] = f.result()
            except SystemExit:
                errors.append("build failed")
        for j, f in fts:
            g, d, e = f.result()
            if e:
                errors.append(e)
            tl.append((j, g, d))
    if errors:
        fail("\n".join(errors[:3]))
    t_gen = time.time() - T0
    for ji, j in enumerate(jobs):
        traces = sorted(glob.glob(os.path.join(run, f"j{ji}-*.itf*.json")))
        if not j.get("procs", 1):
            continue
        if not traces:
            fail(f"no traces for job {ji}")
        res, e = replay(exes[j.get("simd", "")], j["module"], traces, os.path.join(run, f"j{ji}.out.json"),
                        os.path.join(run, f"w{ji}"), j.get("limit", 240), j.get("threads", 8), j.get("env"), j.get("cpus", 0))
        if e:
            errors.append(e)
            continue
        total["traces"] += res["traces"]
        total["steps"] += res["steps"]
        total["distinct"] += res["distinct"]
        for k, v in res["ops"].items():
            total["ops"][f"{j['module']}:{k}"] = total["ops"].get(f"{j['module']}:{k}", 0) + v
        total["samples"] += [f"{j['module']}: {x}" for x in list(res["samples"].values())[:4]]
        for op in j.get("must", []):
            if not res["ops"].get(op) and not res["bads"]:
                errors.append(f"vacuous run: no {op} event was exercised in {j['module']}")
        bads += [dict(b, module=j["module"], job=ji) for b in res["bads"]]
    kf, new, seen = known(), [], set()
    for b in bads:
        for f in kf:
            if f["property"] == pid and f["key"] == b["key"] and f.get("module", b["module"]) == b["module"] \
                    and re.search(f.get("event", ""), b.get("event", "")) and re.search(f.get("msg", ""), b.get("msg", "")):
                seen.add(f["id"])
                break
        else:
            new.append(b)
    if errors and not new:
        fail("\n".join(errors[:3]))
    for f in kf:
        if f["id"] in seen:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
    paths = []
    if new:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, b in enumerate(new[:5]):
            path = os.path.join(rd, f"{pid}-{TIER}-{SEED}-{n}.json")
            with open(b["trace"]) as f:
                t = json.load(f)
            t["states"] = t["states"][: b["step"] + 1]
            again = [k for k, x in enumerate(t["states"]) if x.get("last", {}).get("op") == "restart"]
            if again:
                t["states"] = t["states"][again[-1]:]
            with open(path, "w") as f:
                json.dump({"property": pid, "module": b["module"], "key": b["key"], "msg": b["msg"],
                           "event": b.get("event"), "simd": jobs[b["job"]].get("simd", ""),
                           "trace": t}, f)
            paths.append(path)
    level = prop.get("level", "exploration")
    notes = [f"this machine has no {x}: the jobs on that build did not run" for x in skipped]
    rule = prop["rule"]
    cov = {"samples": total["samples"][:12], "rule": rule, "events_by_action": total["ops"],
           "generation_s": round(t_gen, 1)}
    if level == "model_checking":
        cov.update(states=sum(d for _, _, d in tl) + total["distinct"],
                   transitions=sum(g for _, g, _ in tl) + total["steps"],
                   traces_validated_against_impl=total["traces"],
                   exhaustive_models={j["tla"] + ":" + j.get("cfg", ""): {"generated": g, "distinct": d} for j, g, d in tl})
    else:
        cov.update(evaluations=total["steps"], distinct_nontrivial=total["distinct"],
                   traces_validated_against_impl=total["traces"])
        if tl:
            cov["exhaustive_models"] = {j["tla"] + ":" + j.get("cfg", ""): {"generated": g, "distinct": d} for j, g, d in tl}
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": prop.get("assumptions", []) + notes, "wall_s": round(time.time() - T0, 2),
          "violations": len(new)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {total['traces']} behaviours, {total['steps']} events ({total['distinct']} distinct) replayed, "
          f"{len(new)} disagreements, {time.time() - T0:.1f} s", flush=True)
    for b, p in zip(new, paths):
        print(f"  {b['module']} step {b['step']} [{b['key']}]: {b['msg'][:400]}\n    {b.get('event', '')[:400]}")
        print(f"VIOLATION property={pid} replay={p}", flush=True)
    for e in exes.values():
        os.unlink(e)
    if not new and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(run)
    return 1 if new else 0


def main():
    if len(sys.argv) < 2:
        fail(__doc__)
    if sys.argv[1] == "--setup":
        for a in sorted({j.get("simd", "") for p in PROPS.values() for j in p["jobs"]}):
            if runs_here(a):
                os.unlink(build(a))
        return 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        exe = build(r.get("simd", ""))
        d = os.path.join(BUILD, "run", f"replay-{os.getpid()}")
        os.makedirs(d)
        t = os.path.join(d, "t.itf.json")
        with open(t, "w") as f:
            json.dump(r["trace"], f)
        res, e = replay(exe, r["module"], [t], os.path.join(d, "out.json"), os.path.join(d, "w"))
        shutil.rmtree(d)
        os.unlink(exe)
        print(e or json.dumps(res["bads"], indent=1))
        if e:
            return 2
        if res["bads"]:
            print(f"VIOLATION property={r['property']} replay={sys.argv[2]}")
        return 1 if res["bads"] else 0
    if sys.argv[1] == "--all":
        rc = {}
        for pid in sys.argv[2:] or sorted(PROPS):
            r = subprocess.run([sys.executable, __file__, pid])
            rc[pid] = r.returncode
        print({k: v for k, v in rc.items() if v} or "all quiet")
        return max(rc.values())
    return check(sys.argv[1])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        fail(repr(e))
