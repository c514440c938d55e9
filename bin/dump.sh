#!/bin/bash
# Export the MIR of /repo's current working tree as JSON into $1.
# usage: dump.sh OUTDIR [REPO]
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
OUT=$(realpath -m "$1")
REPO=${2:-/repo}
mkdir -p "$OUT"
[ -x "$V/.build/driver/debug/mirdump" ] && [ -f "$V/.build/models/libmodels.rlib" ] || "$V/bin/build_driver.sh"
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH="$SYS/lib"
export RUSTC_WORKSPACE_WRAPPER="$V/.build/driver/debug/mirdump"
export CARGO_TARGET_DIR="$(mktemp -d "${TMPDIR:-/tmp}/mirdump.XXXXXX")"
trap 'rm -rf "$CARGO_TARGET_DIR"' EXIT
export MIRDUMP_MODELS="$V/.build/models/libmodels.rlib"
export MIRDUMP_OUT="$OUT" MIRDUMP_CRATES=layout
export MIRDUMP_STOPS="$(grep -v "^#" "$V/bin/stops.txt" 2>/dev/null | tr "\n" ";")"
rm -f "$OUT"/layout.*.json
cd "$REPO"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
CARGO_INCREMENTAL=0 cargo +nightly check --offline -q -p layout-rs -p layout-cli --lib --bins
ls "$OUT"/layout.lib.json "$OUT"/layout.bin.json >/dev/null
