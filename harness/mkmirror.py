#!/usr/bin/env python3
"""Lays out /verif/build/ws: the crates of /repo that the checks drive, copied from /repo.

The real workspace needs git dependencies that cannot be fetched here, so the Cargo.toml files are
generated (git dependencies -> the stand-ins in harness/stubs).  Every source file that is compiled
is the one in /repo's working tree.  Files are rewritten only
when their content changes, so that cargo works incrementally."""
import os, re, shutil, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
WS = os.path.join(os.path.dirname(HERE), "build", "ws")

STUB_DEPS = {
    "profiler_macro": 'profiler_macro = { path = "%s/stubs/profiler_macro" }' % HERE,
    "franklin-crypto": 'franklin-crypto = { path = "%s/stubs/franklin-crypto", features = ["plonk"] }' % HERE,
    "powdr": 'powdr = { path = "%s/stubs/powdr" }' % HERE,
    "powdr-parser-util": 'powdr-parser-util = { path = "%s/stubs/powdr-parser-util" }' % HERE,
}
# path inside the crate -> ("skip") or ("file", path of the replacement) 
CRATES = {
    "fields": {},
    "starky": {"skip": {"benches"}},
    "algebraic": {},
    "algebraic-gpu": {},
    "groth16": {"manifest": HERE + "/groth16.toml"},
    "recursion": {},
    "recursion-gnark/ffi": {"skip": {"build.rs", "go"}, "drop": {"src/lib.rs": ["ffi"]}},
}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.unlink(path)
    os.symlink(target, path)


def manifest(text, crate):
    out, skip = [], False
    for line in text.splitlines():
        sec = re.match(r"\s*\[", line)
        if sec:
            skip = bool(re.match(r"\s*\[\[bench\]\]", line)) or \
                line.strip() in ("[dev-dependencies]", "[build-dependencies]")
        if skip:
            continue
        m = re.match(r"([\w-]+)\s*=", line)
        if m and m[1] in STUB_DEPS:
            line = STUB_DEPS[m[1]] or "# left out: " + line
        elif re.match(r"[\w-]+\s*=\s*\[", line):
            pass
        if line.strip().startswith("crate-type"):
            line = 'crate-type = ["rlib"]'
        out.append(line)
    return "\n".join(out) + "\n"


def copy(src, dst):
    """by content, so that a changed file always gets a new modification time here"""
    with open(src, "rb") as f:
        data = f.read()
    if os.path.islink(dst):
        os.unlink(dst)
    try:
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(dst, "wb") as f:
        f.write(data)


def mirror(src, dst, rel, special, skip):
    if os.path.islink(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = {n for n in os.listdir(src) if n not in ("target", "data", "test-vectors", "benches", "tests")
             and f"{rel}{n}" not in skip}
    keep = names | {s[len(rel):].split("/")[0] for s in special if s.startswith(rel)}
    for old in os.listdir(dst):
        if old not in keep:
            p = os.path.join(dst, old)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for n in names:
        r = f"{rel}{n}"
        if os.path.isdir(os.path.join(src, n)):
            mirror(os.path.join(src, n), os.path.join(dst, n), r + "/", special, skip)
        elif r not in special:
            copy(os.path.join(src, n), os.path.join(dst, n))


def main():
    os.makedirs(WS, exist_ok=True)
    for name, c in CRATES.items():
        src, dst = os.path.join(REPO, name), os.path.join(WS, name)
        files = c.get("files", {})
        drop = c.get("drop", {})
        special = {"Cargo.toml"} | set(files) | set(drop)
        skip = c.get("skip", set()) | c.get("skipsub", set())
        mirror(src, dst, "", special, skip)
        if "manifest" in c:
            copy(c["manifest"], os.path.join(dst, "Cargo.toml"))
        else:
            with open(os.path.join(src, "Cargo.toml")) as f:
                write(os.path.join(dst, "Cargo.toml"), manifest(f.read(), name))
        for r, t in files.items():
            copy(t, os.path.join(dst, r))
        for r, mods in drop.items():
            with open(os.path.join(src, r)) as f:
                text = f.read()
            for m in mods:
                text = re.sub(rf"(?m)^((?:pub(?:\(crate\))? )?mod {m};)", r"// left out: \1", text)
            write(os.path.join(dst, r), text)
    os.makedirs(os.path.join(WS, "driver"), exist_ok=True)
    mirror(os.path.join(HERE, "driver"), os.path.join(WS, "driver"), "", set(), set())
    write(os.path.join(WS, "Cargo.toml"),
          "[workspace]\nmembers = [%s]\nresolver = \"2\"\n"
          "[profile.release]\ndebug = false\nopt-level = 2\ncodegen-units = 16\nincremental = true\n"
          % ", ".join(f'"{n}"' for n in [*CRATES, "driver"]))
    lock = os.path.join(HERE, "Cargo.lock")
    if os.path.exists(lock):
        with open(lock) as f:
            text = f.read()
        mine = os.path.join(WS, "Cargo.lock")
        if not os.path.exists(mine):
            write(mine, text)


if __name__ == "__main__":
    main()
