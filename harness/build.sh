#!/bin/bash
# build.sh CRATE TARGETDIR : build a harness crate against /repo's working tree, emitting post-LTO LLVM IR
set -e
mkdir -p "$2"; T=$(cd "$2" && pwd)
export RUSTUP_TOOLCHAIN=1.93.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
H=$(cd "$(dirname "$0")" && pwd)
cd "$H/$1"
export CARGO_TARGET_DIR="$T"
FL='-A warnings -A explicit_builtin_cfgs_in_flags -C no-vectorize-loops -C no-vectorize-slp'
X=()
if [ -n "$(awk '/^ephemeral-vrf-program/' Cargo.toml)" ]; then # a crate around the on-chain program
  FL="--cfg target_os=\"solana\" --cfg feature=\"custom-heap\" $FL"
  M="$T/models/curve25519-dalek"
  if ! cmp -s "$H/patch_dalek.py" "$M/.done"; then
    rm -rf "$M"
    V=$(awk '/^name = "curve25519-dalek"$/{getline; gsub(/[^0-9.]/,""); if ($0 ~ /^4/) print}' Cargo.lock)
    mkdir -p "$M"
    S=$(ls -d ~/.cargo/registry/src/*/curve25519-dalek-"$V" | head -1)
    cp -r "$S"/{Cargo.toml,build.rs,src,README.md,docs,LICENSE} "$M"
    python3 "$H/patch_dalek.py" "$M/src/scalar.rs"
    cp "$H/patch_dalek.py" "$M/.done"
  fi
  X=(--config "patch.crates-io.curve25519-dalek.path=\"$M\"")
fi
RUSTFLAGS="$FL" cargo rustc --offline --release --lib -q "${X[@]}" -- --emit=llvm-ir,link
