#!/bin/bash
# Builds main.rs (beside this file) against the crate in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d /tmp/pgdemo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<C
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
portgraph = { path = "$R", features = ["serde", "petgraph"] }
serde_json = "1"
petgraph = "0.8"
C
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cd "$T" && cargo build --offline -q || exit 4
timeout 120 "$T/target/debug/demo"
