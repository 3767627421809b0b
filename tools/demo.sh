#!/bin/bash
# Builds main.rs (beside this script) against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$here/main.rs" "$T/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cfg = { path = "$repo/cfg", features = ["serde", "ll", "lr", "weighted-generation"] }
cfg-symbol = { path = "$repo/cfg-symbol" }
miniserde = "0.1"
cfg-grammar = { path = "$repo/cfg-grammar" }
cfg-classify = { path = "$repo/cfg-classify", features = ["ll", "lr"] }
cfg-history = { path = "$repo/cfg-history" }
cfg-sequence = { path = "$repo/cfg-sequence" }
cfg-predict-sets = { path = "$repo/cfg-predict-sets" }
cfg-predict-distance = { path = "$repo/cfg-predict-distance" }
cfg-symbol-bit-matrix = { path = "$repo/cfg-symbol-bit-matrix" }
cfg-load = { path = "$repo/cfg-load" }
cfg-regexp-logic = { path = "$repo/cfg-regexp-logic" }
cfg-generate = { path = "$repo/cfg-generate", features = ["weighted"] }
X
cd "$T"
export CARGO_TARGET_DIR="$T/target"
cargo build --offline -q 2> "$T/log" || { tail -30 "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo"
