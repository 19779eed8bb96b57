#!/usr/bin/env python3
"""mkseed.py SEEDS.py [ID..]: makes seeded/<id>/ from replacement tables and verifies each in a scratch copy."""
import os, subprocess, sys, json, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = runpy.run_path(sys.argv[1])
SEEDS, only = D["SEEDS"], sys.argv[2:]
W = "/tmp/seedwork"
DEMO = """#!/bin/bash
# builds main.rs against the rtbvh in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rtbvh = { path = "$PWD" }
glam = ">=0.14"
[workspace]
X
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline --quiet
"""
def run(cmd, cwd, **k): return subprocess.run(["timeout", "-k", "5", "290"] + cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(W, exist_ok=True)
base = os.path.join(W, "repo")
if not os.path.exists(base): subprocess.run(["cp", "-a", "/repo", base], check=True)
run(["git", "fetch", "-q", "/repo", "HEAD"], base); run(["git", "reset", "-q", "--hard", "FETCH_HEAD"], base)
for s in SEEDS:
    if only and s["id"] not in only: continue
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    run(["git", "checkout", "-q", "--", "."], base)
    bad = False
    for f, old, new, *nth in s["edits"]:
        p = os.path.join(base, f); t = open(p).read()
        if old not in t: print(s["id"], "NOT FOUND in", f, repr(old[:60])); bad = True; break
        if t.count(old) > 1 and not nth: print(s["id"], "AMBIGUOUS", t.count(old), repr(old[:60])); bad = True; break
        if nth:
            parts = t.split(old); k = nth[0]; t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else: t = t.replace(old, new)
        open(p, "w").write(t)
    if bad: continue
    diff = run(["git", "diff"], base).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(s.get("demo_sh", DEMO if "demo_tail" not in s else DEMO[:DEMO.rindex('cd "$t"')] + s["demo_tail"])); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(s["main"])
    for n, c in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(c)
    shutil.copy(s.get("lock", "/tmp/demo0/Cargo.lock"), os.path.join(d, "Cargo.lock"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    # changed lines must be original ones: blame
    out = []
    r = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "8"], base)
    r2 = run(["cargo", "test", "--no-fail-fast", "--offline"], os.path.join(base, "rtbvh_ffi"))
    tests = "tests-ok" if r.returncode == 0 and r2.returncode == 0 else "TESTS FAIL " + "; ".join([l for l in (r.stdout + r2.stdout).split("\n") if "FAILED" in l or "error" in l][:5])
    dem = run(["bash", os.path.join(d, "demo.sh")], base)
    run(["git", "checkout", "-q", "--", "."], base)
    dem0 = run(["bash", os.path.join(d, "demo.sh")], base)
    print(s["id"], s["property"], tests, "demo patched:", dem.returncode, "clean:", dem0.returncode, "" if dem.returncode and not dem0.returncode else (dem.stdout[-300:], dem0.stdout[-300:]), flush=True)
