#!/bin/bash
# usage: check.sh <property id> [quick|thorough]   |   check.sh replay <file>   |   check.sh setup
# Builds the code under test from /repo's working tree and runs one check.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export MC_ROOT="$PWD" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$MC_ROOT/target"
export RUSTFLAGS="--cfg reveaal_mc"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
crate=harness extra=""
case "$id" in
  R01|R02|R03) bin=refine;;
  A01|A02) bin=reach;;
  D01|D02|D03) bin=cons;;
  O01|M01) bin=sim;;
  O02|O03) bin=algebra;;
  K01) bin=clockred;;
  G01|G02) bin=text;;
  I01) bin=enable;;
  L01) bin=locs;;
  F01) bin=files; extra="--bin reveaal-cli";;
  S01|S02) bin=saved;;
  Q01) bin=queries;;
  V01|V02|V03) bin=server;;
  T01|T02) bin=tid crate=tid;;
  replay) bin=replay;;
  setup) bin="";;
  *) echo "unknown property $id" >&2; exit 2;;
esac
log="$CARGO_TARGET_DIR/build-$bin.log"; mkdir -p "$CARGO_TARGET_DIR"
build() { (cd "$crate" && cargo build --offline --locked --quiet "$@") >"$log" 2>&1 || { grep -E "^error" -A8 "$log" | head -40 >&2; echo "build failed" >&2; exit 2; }; }
if [ "$id" = setup ]; then build --bins; crate=tid; build --bins; exit 0; fi
build --bin "$bin" $extra
if [ "$id" = replay ]; then exec "$CARGO_TARGET_DIR/debug/$bin" "$2"; fi
limit=840; [ "$tier" = thorough ] && limit=7200
export VERIF_TIER="$tier"
err="$CARGO_TARGET_DIR/stderr-$id.log"
timeout -k 5 "$limit" "$CARGO_TARGET_DIR/debug/$bin" "$id" "$tier" 2>"$err"; rc=$?
head -c 20000 "$err" >&2
if [ $rc = 134 ] || [ $rc = 139 ]; then # the code under test took the process down (stack overflow, abort)
  mkdir -p replays; out="$MC_ROOT/replays/$id-crash.txt"
  { echo "./check.sh $id $tier ended with signal $((rc - 128)):"; tail -c 4000 "$err"; } >"$out"
  echo "VIOLATION property=$id replay=$out"; exit 1
fi
exit $rc
