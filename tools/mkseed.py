#!/usr/bin/env python3
"""mkseed.py ID PROP "needs" "breaks" dep=path[,feat] ... : completes seeded/ID (main.rs and the edit in /repo are written by hand)."""
import json, os, subprocess, sys
i, prop, needs, breaks, *deps = sys.argv[1:]
d = f"/verif/seeded/{i}"
os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
assert diff.strip(), "no edit in /repo"
open(d + "/patch.diff", "w").write(diff)
subprocess.run("git -C /repo checkout -- .", shell=True)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
k = '"k.rs"' in open(d + "/main.rs").read() or "mod k;" in open(d + "/main.rs").read()
if k:
    open(d + "/k.rs", "w").write(open("/verif/tools/k.rs").read())
dd = "mod dao;" in open(d + "/main.rs").read()
if dd:
    open(d + "/dao.rs", "w").write(open("/verif/tools/dao.rs").read())
    deps = ["dao-dao-core=/repo/contracts/dao-dao-core", "dao-voting-cw4=/repo/contracts/voting/dao-voting-cw4", "cw4-group=1.1"] + deps
lines = ['cosmwasm-std = { version = "1.5", features = ["ibc3", "cosmwasm_1_2", "staking"] }', 'cw-multi-test = { version = "0.20", features = ["cosmwasm_1_2"] }', 'serde_json = "1"'] if k else []
for x in deps:
    n, p = x.split("=", 1)
    if p.startswith("/"):
        lines.append(f'{n} = {{ path = "{p}", features = ["library"] }}' if "/contracts/" in p else f'{n} = {{ path = "{p}" }}')
    else:
        lines.append(f'{n} = "{p}"')
open(d + "/Cargo.toml", "w").write(f"""[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[profile.dev]
debug = 0
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
""" + "\n".join(lines) + "\n")
open(d + "/demo.sh", "w").write("""#!/bin/bash
# builds main.rs against /repo in a scratch directory and runs it: exit 0 iff the property held
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/Cargo.toml" "$here"/*.rs "$d/" && cp /repo/Cargo.lock "$d/" || exit 2
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cd "$d" && cargo run --offline --quiet
""")
os.chmod(d + "/demo.sh", 0o755)
print(diff)
