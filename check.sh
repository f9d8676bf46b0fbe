#!/bin/bash
# check.sh <property id> <quick|thorough>: rebuild from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
export RSIM_ROOT="$PWD"
mkdir -p build evidence
if ! ./build.sh > build/build.log 2>&1; then
  echo "build failed:"; tail -40 build/build.log; exit 2
fi
exec build/target/release/rsim check "$1" "${2:-quick}"
