#!/usr/bin/env python3
"""Makes one planted bug per entry of a spec file: seed.py SPEC.py [ID...]. Confirms in a scratch copy
of /repo that it builds, passes the stable tests and is told by its demonstration; writes
/verif/seeded/<id>/. A spec file defines BUGS: id -> dict(prop, edits=[(file, old, new)...], demo,
needs, breaks[, utils])."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
PRE = '''#![allow(dead_code, unused_imports)]
use dbml_rs::ast::*;
use dbml_rs::{parse_dbml, parse_dbml_unchecked};
fn parse(s: &str) -> SchemaBlock<'_> {
  parse_dbml_unchecked(s).expect("parses")
}
fn parses(s: &str) -> bool {
  parse_dbml_unchecked(s).is_ok()
}
fn valid(s: &str) -> bool {
  parse_dbml(&format!("Project p {{}}\\n{s}")).is_ok()
}
fn error(s: &str) -> String {
  parse_dbml(&format!("Project p {{}}\\n{s}")).err().map(|e| format!("{e}")).unwrap_or_default()
}
'''
DEMO = '''#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it: exit 0 if it behaves.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target"
FLAGS
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dbml-rs = { path = "$repo"FEATURES }
EOF
cd "$d" && cargo run --offline -q
'''
def sh(c, cwd=None, t=600, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    sh(f"rm -rf {W}"); sh(f"cp -a /repo {W}")
    for i, b in bugs.items():
        if only and i not in only: continue
        sh("git checkout -q -- .", W)
        bad = None
        for f, old, new in b["edits"]:
            s = open(f"{W}/{f}").read()
            if s.count(old) != 1:
                bad = f"{f}: {s.count(old)} matches of {old!r}"; break
            open(f"{W}/{f}", "w").write(s.replace(old, new))
        if bad: print(i, "EDIT", bad); continue
        r = sh('bash -c \'. /opt/vp/env.sh; cd %s; cargo test --workspace --offline && cargo check --workspace --all-features --offline\'' % W)
        out = r.stdout + r.stderr
        if "error" in out and "could not compile" in out:
            print(i, "DOES NOT BUILD", out[-1500:]); continue
        if r.returncode:
            print(i, "FAILS TESTS", [l for l in out.splitlines() if "FAILED" in l or "panicked" in l][:5]); continue
        diff = sh("git diff", W).stdout
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        body = b["demo"] if "fn main" in b["demo"] else "fn main() {\n" + b["demo"].strip("\n") + "\n}\n"
        open(f"{d}/main.rs", "w").write(PRE + body)
        u = b.get("utils")
        open(f"{d}/demo.sh", "w").write(DEMO.replace("FLAGS", 'export RUSTFLAGS="--cfg dbml_verif"' if u else "unset RUSTFLAGS").replace("FEATURES", ', features = ["utils"]' if u else ""))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        a = sh(f"{d}/demo.sh", "/repo"); c = sh(f"{d}/demo.sh", W)
        ok = a.returncode == 0 and c.returncode != 0 and "could not compile" not in c.stderr
        print(i, "ok" if ok else f"DEMO clean={a.returncode} patched={c.returncode} {a.stderr[-800:]} {c.stderr[-300:]}", flush=True)
        if not ok: shutil.rmtree(d)
    sh(f"rm -rf {W}")
main()
