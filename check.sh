#!/bin/bash
# check.sh ID [quick|thorough]   decide one property against /repo's working tree
# check.sh replay FILE           repeat a recorded violation
# check.sh build                 build both simulators
# Exit 0: held. 1: violated (VIOLATION line). 2: the machinery failed.
cd "$(dirname "$0")" || exit 2
here=$PWD
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR RUSTC CARGO_BUILD_RUSTC_WRAPPER
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/sim/rustc-wrapper.sh"

build() { # $1: plain | instr
  local dir="$here/sim/target-$1"
  # never trust time stamps for the code under test
  rm -rf "$dir"/release/.fingerprint/cryptography-* "$dir"/release/.fingerprint/vsim-*
  local log="$dir.log"
  if ! (cd sim && VSIM_INSTR=$([ "$1" = instr ] && echo 1 || echo 0) CARGO_TARGET_DIR="$dir" \
        cargo build --release --offline -q -p vsim >"$log" 2>&1); then
    echo "check.sh: the $1 simulator does not build:" >&2
    grep -A8 '^error' "$log" | head -60 >&2
    exit 2
  fi
}
kind() { case "$1" in C12|C13|C14) echo instr;; *) echo plain;; esac; }

export VSIM_OUT="$here"
case "$1" in
  build) build plain; build instr; exit 0;;
  replay)
    id=$(sed -n 's/^property //p' "$2" | head -1)
    k=$(kind "$id"); build "$k"
    exec "sim/target-$k/release/vsim" replay "$2";;
  C[0-9][0-9])
    k=$(kind "$1"); build "$k"
    "sim/target-$k/release/vsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
    rc=$?
    [ $rc = 0 ] || [ $rc = 1 ] || rc=2
    exit $rc;;
  *) sed -n 2,5p "$0" >&2; exit 2;;
esac
