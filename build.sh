#!/bin/bash
# Build the harness against the current working tree of /repo.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/harness"
export CARGO_TARGET_DIR="$(cd .. && pwd)/target"
cargo build --offline -q "$@" 2>"$CARGO_TARGET_DIR.log" || { grep -E -A12 "^error" "$CARGO_TARGET_DIR.log" | head -60; exit 2; }
