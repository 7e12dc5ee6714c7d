#!/bin/bash
# Builds demo.rs against the part of /repo that builds offline (laid out by build.sh in /opt/vp/ws) and runs it.
# exit 0: the property held in the demonstration; otherwise it did not.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$d/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp /opt/vp/ws/Cargo.lock "$d/Cargo.lock" || exit 2
{ printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'; cat "$here/deps"; } > "$d/Cargo.toml"
cd "$d" && cargo build --offline --quiet 2> "$d/err" || { grep -A8 '^error' "$d/err" | head -60; exit 3; }
cd "$d" && timeout 120 "$d/target/debug/demo"
