#!/bin/bash
# Run with cwd = /repo: builds main.rs against the crate and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
sieve-rs = { path = "$repo", features = ["serde"] }
mail-parser = { version = "0.11", features = ["full_encoding", "serde"] }
serde_json = "1.0"
[profile.dev]
debug = 0
[workspace]
T
lock=$repo/Cargo.lock
[ -f "$lock" ] || lock=/opt/vp/Cargo.lock
cp "$lock" "$d/Cargo.lock"
[ -f /opt/vp/env.sh ] && { . /opt/vp/env.sh >/dev/null 2>&1; }
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 3
cargo build --offline -q 2> "$d/log" || { tail -30 "$d/log"; exit 2; }
timeout 120 "$d/target/debug/demo"
