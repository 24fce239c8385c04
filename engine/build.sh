#!/bin/bash
set -e
mkdir -p "$1"; T=$(cd "$1" && pwd)
export RUSTUP_TOOLCHAIN=1.93.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$(dirname "$0")"
CARGO_TARGET_DIR="$T" cargo build --offline --release -q
