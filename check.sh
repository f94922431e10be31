#!/bin/bash
# check.sh <PROPERTY> [replay FILE]: builds the monitors together with /repo's current tree and runs one of them.
cd "$(dirname "$0")/harness" || exit 2
. ./env.sh
export CARGO_TARGET_DIR="$(cd .. && pwd)/target" VMON_DIR="$(cd .. && pwd)"
export RUST_BACKTRACE=0
# feature sets to try in turn: a check uses as few of the repository's internal functions as it can, and those
# monitors that also call internal functions directly go on without them if these are gone
case "$1" in
  C03|C16|C23) sets=(steps none);;
  C19) sets=(c19);;
  C20) sets=(c20);;
  C21) sets=(sdkhelp c21);;
  C22) sets=(sdkliq c22);;
  *) sets=(none);;
esac
base="$CARGO_TARGET_DIR"
log=$(mktemp)
for f in "${sets[@]}"; do
  unset RUSTFLAGS
  case "$f" in
    sdkhelp|c21|sdkliq) export RUSTFLAGS="--cfg verif_hooks"; export CARGO_TARGET_DIR="$base/sdk";;
    *) export CARGO_TARGET_DIR="$base";;
  esac
  feat=(--features "$f"); [ "$f" = none ] && feat=()
  if cargo build --offline -q "${feat[@]}" >"$log" 2>&1; then
    rm -f "$log"
    export VMON_FEATURES="$f"
    if [ "$2" = replay ]; then exec "$CARGO_TARGET_DIR/debug/vmon" replay "$3"; fi
    exec "$CARGO_TARGET_DIR/debug/vmon" check "$1"
  fi
done
grep -v '^warning' "$log" | tail -40
rm -f "$log"
echo "ERROR: the monitors do not build against /repo"
exit 2
