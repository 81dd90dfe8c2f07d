#!/bin/bash
# Builds the simulation runner from /repo's working tree.  usage: build.sh OUTDIR
set -e
REPO=${VERIF_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/build}
mkdir -p "$OUT"
python3 "$HERE/build.py" "$REPO" "$HERE" "$OUT"
