#!/bin/bash
# Runs demo.rs under Miri with the cartesian product of the current directory (a gearley checkout), in a scratch directory.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/demo/src"
cp "$HERE/demo.rs" "$T/demo/src/main.rs"
cp gearley-utils/src/cartesian_product.rs "$T/demo/src/cartesian_product.rs"
cat > "$T/demo/Cargo.toml" <<Y
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
Y
cd "$T/demo"
export CARGO_TARGET_DIR="$T/target"
MIRI_SYSROOT=${MIRI_SYSROOT:-} 
[ -n "$MIRI_SYSROOT" ] || unset MIRI_SYSROOT
timeout 280 cargo +nightly miri run --offline > "$T/out" 2>&1 && rc=0 || rc=$?
tail -8 "$T/out"
exit $rc
