#!/bin/bash
# RUSTC_WRAPPER of the simulation builds. With VSIM_INSTR=1 the library under test and the scenario crate
# (which holds the library's generic code after monomorphisation) are compiled with sanitizer-coverage
# callbacks at every edge and every load and store: those callbacks are the simulator's pre-emption points.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
if [ "$VSIM_INSTR" = 1 ] && { [ "$name" = cryptography ] || [ "$name" = vsim ]; }; then
  exec "$rustc" "$@" -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads \
    -Cllvm-args=-sanitizer-coverage-trace-stores
fi
exec "$rustc" "$@"
