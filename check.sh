#!/bin/bash
# ./check.sh <property> [--unit <name>]   (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" || exit 2
./build.sh || { echo "the harness does not build against /repo" >&2; exit 2; }
export MC_ROOT="$PWD" RUST_BACKTRACE=0
exec ./harness/target/debug/mc "$@"
