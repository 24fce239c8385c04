#!/bin/bash
# Builds and runs main.rs (beside this file) against the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here"/*.rs "$t/"
sed "s#@REPO@#$repo#; s#@SDKF@#default#" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" || exit 3
CARGO_TARGET_DIR="$repo/target" cargo build --offline -q --bin demo 2> build.log || { cat build.log; exit 3; }
timeout 120 "$repo/target/debug/demo"
