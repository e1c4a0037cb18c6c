#!/bin/bash
# Exit 0: the demonstration's assertions hold on the code in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here"/*.rs "$t/src/"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
spdmlib = { path = "$repo/spdmlib", default-features = false, features = ["hashed-transcript-data", "mut-auth"] }
codec = { path = "$repo/codec" }
mctp_transport = { path = "$repo/mctp_transport" }
pcidoe_transport = { path = "$repo/pcidoe_transport" }
sys_time = { path = "$repo/sys_time" }
[workspace]
X
cp "$here/lock" "$t/Cargo.lock"
. /opt/vp/env.sh
unset RUSTC_WORKSPACE_WRAPPER
export CARGO_TARGET_DIR="$t/target" RUSTFLAGS="--cap-lints allow"
cd "$t" && cargo build --offline >"$t/log" 2>&1 || { tail -20 "$t/log"; exit 2; }
timeout 100 "$t/target/debug/demo"
