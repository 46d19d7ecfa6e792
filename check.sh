#!/bin/bash
# usage: check.sh build | check <PROPERTY> | replay <FILE> | ...   (arguments of toppo-sim)
# Builds the simulator against /repo's working tree and runs it.
. /opt/vp/env.sh
cd "$(dirname "$(realpath "$0")")" || exit 2
export TOPPO_SIM_ROOT="$PWD"
export RUSTC_WRAPPER="$PWD/sim/rustc-wrap.sh" CARGO_TARGET_DIR="${TOPPO_SIM_TARGET:-$PWD/sim/target}" CARGO_INCREMENTAL=0
log=$(mktemp)
( cd sim && cargo build --offline --locked ) > "$log" 2>&1 || { cat "$log"; rm -f "$log"; echo "HARNESS-ERROR the simulator does not build"; exit 2; }
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/toppo-sim" "$@"
