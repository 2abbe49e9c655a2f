#!/bin/bash
set -eu
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
python3 "$here/build_demo.py" EQUATION "$here/demo.cc" "$scratch/demo" >"$scratch/log" 2>&1 || { cat "$scratch/log"; exit 3; }
cd "$scratch"
OMP_NUM_THREADS=2 timeout 120 ./demo
