#!/bin/sh
# RUSTC_WRAPPER of the simulator build: the code under test and the scenarios that instantiate its generics are
# compiled with edge callbacks (the scheduler's preemption points and step counter) and with every atomic operation
# turned into a call (more preemption points; locks are made of these); the simulator is not.
rustc="$1"; shift
name=; prev=
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
case "$name" in
  util|alg|topo_spaces|geom|analysis|scen|toppo_sim)
    exec "$rustc" "$@" -Cembed-bitcode=no -Clto=off '-Cpasses=sancov-module function(tsan)' -Cllvm-args=-tsan-instrument-func-entry-exit=0 \
      -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ${TOPPO_SIM_PCS:+-Cllvm-args=-sanitizer-coverage-pc-table} ;;
esac
exec "$rustc" "$@"
