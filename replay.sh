#!/bin/bash
# replay.sh <replay file>: reproduces a reported violation exactly (exit 1 and its event log).
cd "$(dirname "$0")" || exit 2
export RSIM_ROOT="$PWD"
mkdir -p build
./build.sh > build/build.log 2>&1 || { tail -40 build/build.log; exit 2; }
exec build/target/release/rsim replay "$1"
