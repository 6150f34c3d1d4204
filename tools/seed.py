#!/usr/bin/env python3
"""seed.py ID: confirm a planted bug in a scratch copy of /repo and run its property's check.

seeded/ID holds edits.json [[file, old, new], ...] while it is being made (turned into patch.diff),
main.rs (the demonstration) and meta.json. With --edit the patch is regenerated from edits.json."""
import json, os, subprocess, sys, shutil, tempfile
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# Builds main.rs against the laps crates of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'find "$d" -delete' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
laps = { path = "$repo", FEATURES }
laps_regex = { path = "$repo/laps_regex" }
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 2
CARGO_TARGET_DIR=$d/target timeout 280 cargo run --offline -q
'''
def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def make(i):
    d = f"{V}/{i}"
    ed = json.load(open(d + "/edits.json"))
    for f, old, new in ed["edits"]:
        p = "/repo/" + f
        s = open(p).read()
        n = 1
        if old.startswith("@"):
            _, k, old = old.split("@", 2)
            parts = s.split(old)
            k = int(k)
            assert len(parts) > k, (f, old)
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        else:
            assert s.count(old) == 1, (f, old, s.count(old))
            s = s.replace(old, new)
        open(p, "w").write(s)
    try:
        diff = sh("git -C /repo diff").stdout
    finally:
        sh("git -C /repo checkout -- .")
    open(d + "/patch.diff", "w").write(diff)
    feats = ed.get("features", 'features = ["macros"]')
    open(d + "/demo.sh", "w").write(DEMO.replace("FEATURES", feats))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ed["property"], "needs": ed["needs"], "what_it_breaks": ed["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    os.remove(d + "/edits.json")
def confirm(i):
    d = f"{V}/{i}"
    w = "/tmp/seedwork/repo"
    if not os.path.exists(w):
        os.makedirs("/tmp/seedwork")
        sh(f"cp -a /repo {w}")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", cwd=w)
    env = {"CARGO_TARGET_DIR": "/tmp/seedwork/target"}
    r = sh(f"bash {d}/demo.sh", cwd=w)
    if r.returncode != 0:
        return "demo fails on the clean tree\n" + r.stdout[-1500:]
    r = sh(f"git apply {d}/patch.diff", cwd=w)
    if r.returncode: return "patch does not apply " + r.stdout
    try:
        r = sh("cargo test --workspace --all-features --no-fail-fast --offline 2>&1 | grep -E '^test |test result|error' ; cargo check --workspace --offline --benches --all-features && cargo check --workspace --offline", cwd=w, env=env)
        bad = [l for l in r.stdout.splitlines() if l.startswith("error") or "FAILED" in l or "could not compile" in l]
        if bad: return "tests or build fail: " + "; ".join(bad[:6])
        ntests = sum(1 for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith(" ok"))
        r = sh(f"bash {d}/demo.sh", cwd=w)
        if r.returncode == 0: return "demo passes with the patch"
        out = r.stdout[-300:]
    finally:
        sh("git checkout -q -- .", cwd=w)
    return f"OK ({ntests} tests pass; demo: {out.strip()[-160:]!r})"
def detect(i):
    d = f"{V}/{i}"
    p = json.load(open(d + "/meta.json"))["property"]
    if sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip(): return "repo dirty"
    sh(f"git -C /repo apply {d}/patch.diff")
    try:
        r = sh(f"./check.sh {p}", cwd="/verif")
    finally:
        sh("git -C /repo checkout -- .")
    hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
    return ("CAUGHT" if r.returncode == 1 and hit else f"missed rc={r.returncode}") + " " + "; ".join(r.stdout.splitlines()[-3:])[:200]
for a in sys.argv[1:]:
    if a.startswith("-"): continue
    if os.path.exists(f"{V}/{a}/edits.json"): make(a)
    if "-d" not in sys.argv: print(a, confirm(a))
    print(a, detect(a), flush=True)
