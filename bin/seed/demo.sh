#!/bin/bash
# Builds demo.rs (beside this file) against the repository in the current
# directory and runs it: exit 0 means the property held.
repo=$PWD
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -r -- "$w"' EXIT
mkdir -p "$w/src"
cp "$d/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
codec = { path = "$repo/codec" }
spdmlib = { path = "$repo/spdmlib", default-features = false, features = ["hashed-transcript-data", "mut-auth"] }
mctp_transport = { path = "$repo/mctp_transport" }
pcidoe_transport = { path = "$repo/pcidoe_transport" }
[workspace]
T
cp /opt/vp/ws/Cargo.lock "$w/Cargo.lock"
. /opt/vp/env.sh
export RUSTC_WORKSPACE_WRAPPER=
cd "$w" && cargo build --offline --target-dir "$w/target" > "$w/build.log" 2>&1 || { tail -30 "$w/build.log"; exit 3; }
"$w/target/debug/demo"
