#!/usr/bin/env python3
"""Builds seeded/<id>/ from a specification file and confirms each change in a scratch copy of /repo:
it applies, the existing tests pass with it, the demonstration passes without and fails with it.
usage: seedtool.py SPEC.py [id...]     (SPEC defines SEEDS, a list of dicts)"""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; builds a throw-away crate against it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock.txt" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
linfa-linalg = { path = "$PWD" }
ndarray = { version = "=0.16.1", features = ["approx"] }
num-traits = "=0.2.19"
rand = "=0.8.8"
rand_xoshiro = "=0.6.0"
[profile.dev]
opt-level = 1
T
cd "$d" || exit 2
CARGO_TARGET_DIR="$d/target" timeout 280 cargo run -q --offline @PROFILE@ 2>"$d/log"
rc=$?
tail -5 "$d/log"
exit $rc
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    work = "/tmp/seedwork"
    if not os.path.isdir(work):
        subprocess.run(["cp", "-a", "/repo", work], check=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="2",
               PROPTEST_RNG_SEED="20240607", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1")
    for sd in spec:
        if want and sd["id"] not in want:
            continue
        sh("git checkout -q --force -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", work)
        ok = True
        for f, a, b in sd["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            if s.count(a) != 1:
                print(sd["id"], "edit matches", s.count(a), "times in", f); ok = False; break
            open(p, "w").write(s.replace(a, b))
        if not ok:
            continue
        d = os.path.join(ROOT, "seeded", sd["id"])
        os.makedirs(d, exist_ok=True)
        patch = subprocess.run(["git", "diff"], cwd=work, stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/main.rs", "w").write(sd["demo"])
        open(d + "/demo.sh", "w").write(DEMO.replace("@PROFILE@", "" if sd.get("debug") else "--release"))
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(ROOT + "/harness/Cargo.lock", d + "/Cargo.lock.txt")
        json.dump({"property": sd["property"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8", work, env=env)
        fails = [l for l in t.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
        if t.returncode != 0:
            print(sd["id"], "TESTS FAIL:", fails[:6] or t.stdout[-1500:]); continue
        bad = sh(f"bash {d}/demo.sh", work)
        sh("git checkout -q --force -- .", work)
        good = sh(f"bash {d}/demo.sh", work)
        print(sd["id"], "tests ok; demo clean", good.returncode, "patched", bad.returncode, "" if good.returncode == 0 and bad.returncode else "<<< " + good.stdout[-800:] + bad.stdout[-300:], flush=True)
main()
