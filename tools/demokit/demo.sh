#!/bin/bash
# Builds the scenario beside this file against the contracts in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
. /opt/vp/env.sh
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp -r "$here/src" "$here/Cargo.lock" "$work/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$work/Cargo.toml"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cd "$work" && cargo build --offline -q 2> build.log || { tail -30 build.log; exit 2; }
"$CARGO_TARGET_DIR/debug/demo"
