#!/bin/bash
# Build the MIR exporter and the reference models (both offline).
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$V/.build/models"
cd "$V/driver"
unset RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
CARGO_TARGET_DIR="$V/.build/driver" cargo +nightly build --offline -q
rustc +nightly --edition 2021 --crate-type rlib --crate-name models -Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off -O \
  --out-dir "$V/.build/models" models/models.rs
