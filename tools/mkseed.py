#!/usr/bin/env python3
"""mkseed.py SPEC.py : a SPEC defines id, prop, edits=[(file, old, new)], demo (rust main.rs), needs, breaks.
Validates the planted bug in a scratch copy of /repo, stores it under seeded/, then runs the property's check with
the bug applied to /repo (and reverts)."""
import json, os, subprocess, sys, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$HERE/demo.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || true
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cryptography = { path = "$REPO" }
hex = "0.4.3"
X
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo run --offline --quiet %s
'''
def sh(c, cwd=None, t=1800):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
def main():
    for f in sys.argv[1:]:
        ns = {"release": False}
        exec(open(f).read(), ns)
        one(ns)
def one(ns):
    id = ns["id"]
    d = f"{H}/seeded/{id}"
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh(f"cp -a /repo/. {w}/")
        for (p, a, b) in ns["edits"]:
            s = open(f"{w}/{p}").read()
            if s.count(a) != 1:
                print(id, "EDIT", p, "matches", s.count(a)); return
            open(f"{w}/{p}", "w").write(s.replace(a, b))
        _, diff = sh("git diff", w)
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO % ("--release" if ns["release"] else ""))
        open(f"{d}/demo.rs", "w").write(ns["demo"])
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        c0, o0 = sh(f"bash {d}/demo.sh", "/repo")
        c1, o1 = sh(f"bash {d}/demo.sh", w)
        rc, o = sh("cargo test --offline 2>&1 | grep -E 'test result|FAILED|error'", w)
        bad = "FAILED" in o or "error" in o
        ok = c0 == 0 and c1 != 0 and not bad
        print(f"{id} {ns['prop']}: demo clean={c0} patched={c1} tests={'FAIL' if bad else 'ok'} -> {'VALID' if ok else 'INVALID'}")
        if not ok:
            print(o0[-800:], o1[-800:], o[-800:])
            shutil.rmtree(d)
            return
    finally:
        shutil.rmtree(w)
    check(id, ns["prop"])
def check(id, prop, patch=None):
    """runs the property's check on a patched copy, mounted over /repo in a mount namespace of its own"""
    w = tempfile.mkdtemp(prefix="seed")
    try:
        sh(f"cp -a /repo/. {w}/repo")
        c, o = sh(f"git apply {patch or f'{H}/seeded/{id}/patch.diff'}", f"{w}/repo")
        if c:
            print("   does not apply", o); return
        rc, o = sh(f"unshare -m bash -c 'mount --bind {w}/repo /repo && VERIF_TARGET={w}/t ./check.sh {prop} quick'", H)
    finally:
        shutil.rmtree(w)
    print(f"   check {prop}: rc={rc} " + ("CAUGHT" if rc == 1 and f"VIOLATION property={prop}" in o else "MISSED"))
    print("   " + "\n   ".join(l[:260] for l in o.splitlines()[:4]))
if sys.argv[1:2] == ["--check"]:
    for id in sys.argv[2:] or sorted(os.listdir(f"{H}/seeded")):
        print(id)
        check(id, json.load(open(f"{H}/seeded/{id}/meta.json"))["property"])
else:
    main()
