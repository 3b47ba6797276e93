#!/bin/bash
# usage: check.sh <crate: small|broker> <property> [quick|thorough]
# Builds the monitors from /repo's current tree and runs one of them.
cd "$(dirname "$0")" || exit 2
crate=$1 prop=$2
export VERIF_DIR=$PWD VERIF_TIER=${3:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
. ./build.sh "$crate" || { echo "build failed"; exit 2; }
limit=840; [ "$VERIF_TIER" = thorough ] && limit=3000
ulimit -c 0
timeout -k 10 "$limit" "$BIN" "$prop"
rc=$?
[ $rc = 124 ] && { echo "watchdog: no verdict"; exit 4; }
exit $rc
