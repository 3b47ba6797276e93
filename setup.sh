#!/bin/bash
# Builds every monitor once.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
for c in small broker; do
    [ -d "$c" ] || continue
    (. ./build.sh "$c") || exit 2
done
python3 san.py build || exit 2
