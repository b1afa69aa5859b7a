#!/bin/bash
# Builds both simulators (offline) and checks the reference models against their known answers.
cd "$(dirname "$0")" || exit 1
bash check.sh build || exit 1
sim/target-plain/release/vsim selftest
