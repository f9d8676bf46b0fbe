#!/bin/bash
# build + quick checks of the given properties, terse
cd /verif; ./build.sh 2>&1 | grep -E "^(warning|error)|-->" -A6| head -${LINES_MAX:-40}
for k in "$@"; do RSIM_ROOT=/verif ./build/target/release/rsim check $k quick 2>&1 | tail -4 | cut -c1-500; done
