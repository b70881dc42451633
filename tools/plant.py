#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/bugs.py and confirms each in a scratch copy of /repo.
usage: plant.py [id ...]      (all that are not yet there, by default)
"""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS
SEEDED = "/verif/seeded"
BASE = "3a38f4d"
ENV = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUSTC_WRAPPER="")

DEMO = r'''#!/bin/bash
# Run with /repo (or a copy) as the working directory. Exit 0: the property holds on the demonstrated case.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -r -- "$work"' EXIT
mkdir "$work/src"
sed "s#@REPO@#$repo#g" "$here/demo.rs" > "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
puzzle-utils = { path = "$repo" }
image = "0.25.1"
rand = "0.8.5"
thiserror = "1"
serde = { version = "1", features = ["derive"] }
serde_json = "1"

[profile.dev]
debug = false

[workspace]
TOML
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cd "$work" || exit 3
CARGO_TARGET_DIR=$work/target cargo build --offline --quiet > "$work/log" 2>&1 || { grep -A8 '^error' "$work/log" | head -40; echo "demo does not build"; exit 4; }
timeout 120 "$work/target/debug/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: holds" || echo "demo: broken (exit $rc)"
exit $rc
'''

def sh(cmd, cwd, env=ENV, timeout=240):
    r = subprocess.run(["timeout", "-k", "2", str(timeout), "bash", "-c", cmd], cwd=cwd, env=env, capture_output=True, text=True)
    return r

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def tests(wt):
    env = dict(ENV, CARGO_TARGET_DIR=wt + "/target")
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1", wt, env)
    ok = re.findall(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
    failed = re.findall(r"^test (\S+) \.\.\. FAILED", r.stdout, re.M)
    passed = sum(int(x[1]) for x in ok)
    if not ok:
        return False, r.stdout[-1500:]
    return passed >= 51 and not failed, f"{passed} passed, failed {failed}"

def main():
    ids = sys.argv[1:] or [b["id"] for b in BUGS if not os.path.exists(f"{SEEDED}/{b['id']}/patch.diff")]
    top = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    wt = top + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        sh("git checkout -q -- . && git clean -fdq -e target", wt)
        for b in BUGS:
            if b["id"] not in ids:
                continue
            sh("git checkout -q -- .", wt)
            bad = None
            for f, old, new in b["edits"]:
                p = f"{wt}/{f}"
                s = open(p).read()
                head = s.split("#[cfg(test)]")[0]
                if head.count(old) != 1:
                    bad = f"edit does not match once ({head.count(old)}): {old[:80]}"
                    break
                open(p, "w").write(s.replace(old, new, 1))
            if bad:
                print(b["id"], "SKIP", bad); continue
            sh("cargo fmt", wt) if b.get("fmt") else None
            diff = sh("git diff -- src", wt).stdout
            ok, msg = tests(wt)
            sh("git checkout -q -- Cargo.lock", wt)
            if not ok:
                print(b["id"], "REJECTED by tests:", msg); continue
            d = f"{SEEDED}/{b['id']}"
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.rs", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(DEMO.replace("[profile.dev]\ndebug = false", "[profile.dev]\n" + b["profile"]))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r1 = sh(f"bash {d}/demo.sh", wt)
            sh("git checkout -q -- .", wt)
            r0 = sh(f"bash {d}/demo.sh", wt)
            sh("git checkout -q -- .", wt)
            good = r0.returncode == 0 and r1.returncode not in (0, 3, 4)
            print(b["id"], b["property"], "OK" if good else "BAD-DEMO", "| clean:", r0.returncode, r0.stdout.strip()[-150:].replace("\n", " "), "| patched:", r1.returncode, (r1.stdout + r1.stderr).strip()[-220:].replace("\n", " "), flush=True)
            if not good:
                shutil.rmtree(d)
    finally:
        shutil.rmtree(top)

main()
