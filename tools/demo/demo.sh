#!/bin/bash
# Builds and runs the program beside this file against the crate in the current directory.
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$H"/*.rs "$W/src/"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/demo.rs"
[dependencies]
anothertls = { path = "$R/anothertls" }
ibig = { version = "0.3.6", default-features = false }
[workspace]
T
export PATH=$PATH:/root/.cargo/bin RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true DEMO_DIR="$H"
cd "$W" || exit 3
cargo build -q --offline --target-dir "$W/target" >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
timeout -k 5 200 "$W/target/debug/demo"
