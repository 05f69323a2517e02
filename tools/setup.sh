#!/bin/bash
# Builds the extraction tool and the replay harness (every check does the same on its own).
cd "$(dirname "$0")/.." || exit 1
export CARGO_NET_OFFLINE=true
(cd vx && CARGO_TARGET_DIR=../.build/vx cargo build --release --offline -q) || exit 1
(cd harness && CARGO_TARGET_DIR=../.build/harness cargo build --release --offline -q) || exit 1
verus --version >/dev/null || exit 1
