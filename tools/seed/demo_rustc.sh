#!/bin/bash
# Compiles demo.rs with the sources of the current directory (a gearley checkout) in a scratch directory and runs it.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
rustc --edition 2021 -O --crate-type rlib --crate-name gearley_vec2d -o "$T/libgearley_vec2d.rlib" gearley-vec2d/src/lib.rs -Adead_code -Aunexpected_cfgs
rustc --edition 2021 -O --crate-type rlib --crate-name cartesian -o "$T/libcartesian.rlib" gearley-utils/src/cartesian_product.rs -Adead_code
rustc --edition 2021 -O -o "$T/demo" "$HERE/demo.rs" --extern gearley_vec2d="$T/libgearley_vec2d.rlib" --extern cartesian="$T/libcartesian.rlib"
timeout 200 "$T/demo" && rc=0 || rc=$?
exit $rc
