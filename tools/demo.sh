#!/bin/bash
# Builds demo.rs (beside this file) against /repo in a scratch folder and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
d="$(mktemp -d)" || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /repo/Cargo.lock "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
asn1-rs = { path = "/repo", features = ["bigint", "datetime"] }
[workspace]
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target"
cargo build --offline -q >"$d/log" 2>&1 || { tail -40 "$d/log"; exit 2; }
timeout 60 "$d/target/debug/demo"
