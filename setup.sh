#!/bin/bash
# Builds the engine and every harness crate from /repo's working tree (each check rebuilds what it needs as well).
set -e
cd "$(dirname "$0")"
engine/build.sh target/engine
for c in harness/*/Cargo.toml; do
  c=$(basename "$(dirname "$c")")
  harness/build.sh "$c" "target/$c"
done
