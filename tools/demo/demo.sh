#!/bin/bash
# Builds /repo with the stand-in crates beside this file and asks it the questions in cases.json.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cd "$w" && tar xzf "$d/kit.tgz" || exit 2
[ -f "$d/main.rs" ] && cp "$d/main.rs" "$w/demo/src/main.rs"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS=""
(cd demo && cargo build --offline --locked --quiet) >"$w/log" 2>&1 || { grep -E "^error" -A8 "$w/log" | head -30; echo "does not build"; exit 3; }
"$w/target/debug/demo" "$d/cases.json"
