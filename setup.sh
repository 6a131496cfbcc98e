#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
export CARGO_TARGET_DIR="$here/target"
mkdir -p "$CARGO_TARGET_DIR"
. "$here/build.sh"
build_harness && build_server && build_asan && build_miri
