#!/bin/bash
# Demonstration: builds the program from the current tree (cwd) into a scratch directory and plays
# one concrete history against it. Exit 0: the promised outcome; non-zero: something else.
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo" || exit 3
sed -i "s#/repo/#$root/#g" "$t/demo/Cargo.toml"
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
unset RUSTFLAGS CARGO_BUILD_TARGET
cargo build --manifest-path "$t/demo/Cargo.toml" --offline --quiet || exit 3
"$t/target/debug/mc"
