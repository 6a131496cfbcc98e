#!/bin/bash
# usage: run.sh <property> [quick|thorough] [--replay <case>]
# Rebuilds the harness against /repo's working tree, then runs the monitor campaign.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
export CARGO_TARGET_DIR="$here/target" WLT_VERIF="$here"
prop="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
. "$here/build.sh"
build_all() {
  case "$prop" in
    C30) build_asan && build_miri;;
    C29) build_harness && build_server;;
    *) build_harness;;
  esac
}
if ! build_all >"$CARGO_TARGET_DIR/build-$prop.log" 2>&1; then
  tail -40 "$CARGO_TARGET_DIR/build-$prop.log"; echo "BUILD-FAILED property=$prop"; exit 3
fi
if [ "$prop" = C30 ]; then
  export WLT_ASAN=1 ASAN_OPTIONS=abort_on_error=1:detect_leaks=0
  exec "$CARGO_TARGET_DIR/asan/x86_64-unknown-linux-gnu/debug/wlt_monitor" "$prop" "$@"
fi
exec "$CARGO_TARGET_DIR/debug/wlt_monitor" "$prop" "$@"
