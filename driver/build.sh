#!/bin/bash
# Builds the MIR extraction driver with the nightly compiler (no dependencies, no network).
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
OUT="${1:-$HERE/../.work/bin}"
mkdir -p "$OUT"
if [ ! -x "$OUT/mirdump" ] || [ "$HERE/src/main.rs" -nt "$OUT/mirdump" ]; then
  rustc +nightly --edition 2024 -O -Cdebuginfo=0 -Cprefer-dynamic "$HERE/src/main.rs" -o "$OUT/mirdump.tmp.$$"
  mv "$OUT/mirdump.tmp.$$" "$OUT/mirdump"
fi
