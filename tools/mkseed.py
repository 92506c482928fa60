#!/usr/bin/env python3
"""Writes /verif/seeded from tools/seeds.py. mkseed.py [ID...]"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SH = '''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'find "$tmp" -depth -delete' EXIT
mkdir "$tmp/src" && cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
dynparser = { path = "$repo" }
[workspace]
TOML
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cd "$tmp" || exit 2
%scargo build --offline --quiet || exit 2
timeout 120 "$tmp/target/debug/demo"
'''
BIN = '''( cd "$repo" && cargo build --offline --quiet --bin dynparser ) || exit 2
{
    echo 'fn published() -> parser::expression::SetOfRules { rules!{'
    "$tmp/target/debug/dynparser" || exit 2
    echo '} }'
} > "$tmp/published.rs"
cat "$tmp/published.rs" >> "$tmp/src/main.rs"
'''
RS = '''#[macro_use]
extern crate dynparser;
#[allow(unused_imports)]
use dynparser::{ast, parse, parse_debug, parser, peg, rules_from_peg};

fn main() {%s}
'''

def main():
    only = sys.argv[1:]
    base = tempfile.mkdtemp(dir="/tmp", prefix="mkseed.")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "clone", "-q", "/repo", base + "/r"], check=True)
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=base + "/r", check=True)
        for f, old, new in s["edits"]:
            p = f"{base}/r/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = subprocess.run(["git", "diff"], cwd=base + "/r", check=True, capture_output=True, text=True).stdout
        out = f"{ROOT}/seeded/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        open(out + "/demo.rs", "w").write(RS % s["demo"])
        open(out + "/demo.sh", "w").write(SH % (BIN if s["sh"] == "bin" else ""))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what_it_breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(base)
main()
