#!/bin/bash
# Builds demo.rs against gearley-vec2d of the current directory (a gearley checkout) in a scratch directory and runs it.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/demo/src"
cp "$HERE/demo.rs" "$T/demo/src/main.rs"
cat > "$T/demo/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
gearley-vec2d = { path = "$REPO/gearley-vec2d", features = ["serde", "miniserde"] }
serde = "1"
serde_json = "1"
miniserde = "0.1"
bincode = "1"
[workspace]
X
cd "$T/demo"
if ! CARGO_TARGET_DIR="$T/target" cargo build --offline -q > "$T/log" 2>&1; then
    tail -40 "$T/log"
    exit 3
fi
timeout 200 "$T/target/debug/demo" && rc=0 || rc=$?
exit $rc
