#!/bin/bash
# Builds demo.rs against the crates of the current directory (a gearley checkout) in a scratch directory and runs it.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
tar -xzf "$HERE/kit.tgz" -C "$T"
grep -rlF '/repo/' "$T" --include=Cargo.toml | xargs sed -i "s|\"/repo/|\"$REPO/|g"
cp "$HERE/demo.rs" "$T/demo/src/main.rs"
cd "$T/demo"
if ! CARGO_TARGET_DIR="$T/target" cargo build --offline -q > "$T/log" 2>&1; then
    tail -40 "$T/log"
    echo "the demonstration does not build"
    exit 3
fi
timeout 200 "$T/target/debug/demo" > "$T/out" 2> "$T/err" && rc=0 || rc=$?
tail -5 "$T/err"
exit $rc
