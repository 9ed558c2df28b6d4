#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DIFF CASEFILE NEEDS WHAT — dev helper: writes seeded/ID from a mutation and a failing case.

The demonstration runs one program through the real compiler (recording back end) and through the revm interpreter
and compares the outcomes; it carries its own copy of the small execution harness."""
import json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, diff, case, needs, what = sys.argv[1:7]
d = f"{V}/seeded/{id}"
os.makedirs(f"{d}/irx/src", exist_ok=True)
shutil.copyfile(diff, f"{d}/patch.diff")
line = next(l for l in open(case) if l.startswith(("code=", "FAIL code="))).strip().removeprefix("FAIL ")
open(f"{d}/case.txt", "w").write(line + "\n")
for m in ("ir", "interp", "host", "e2e"):
    shutil.copyfile(f"{V}/harness/irx/src/{m}.rs", f"{d}/irx/src/{m}.rs")
open(f"{d}/irx/src/main.rs", "w").write('''#![allow(dead_code)]
mod e2e;
mod host;
mod interp;
mod ir;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for line in text.lines() {
        let c = e2e::Case::parse(line).expect("bad case");
        if let Err(e) = e2e::check(&c) {
            println!("compiled code and interpreter disagree on {line}\\n{e}");
            std::process::exit(1);
        }
    }
    println!("compiled code and interpreter agree");
}
''')
toml = open(f"{V}/harness/irx/Cargo.toml").read()
open(f"{d}/irx/Cargo.toml", "w").write(toml.replace('name = "irx"', 'name = "demo"'))
sh = open(f"{V}/tools/shadow.py").read().replace('REPO = "/repo"', "REPO = os.getcwd()")
open(f"{d}/shadow.py", "w").write(sh)
open(f"{d}/demo.sh", "w").write('''#!/bin/bash
# Compiles case.txt's program with the tree in the current directory, runs it, and compares with the revm interpreter.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cp -r "$d/irx" "$w/demo" || exit 2
python3 -B "$d/shadow.py" "$w/ws" "$w/demo" || exit 2
(cd "$w/ws" && CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=0 cargo build -q -p demo --target-dir "$w/t") || exit 2
timeout 60 "$w/t/debug/demo" "$d/case.txt"
''')
os.chmod(f"{d}/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(f"{d}/meta.json", "w"), indent=1)
