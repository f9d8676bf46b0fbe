#!/bin/bash
# tools/sweep.sh ID SCENARIO N [START]: every rule of every property, N seeds on 8 cores, summary by rule
cd /verif; rm -f /tmp/sweep.*.txt
s=${4:-100000}; n=$(($3/8))
for i in 0 1 2 3 4 5 6 7; do RSIM_ALL=1 timeout 1500 ./build/target/release/rsim run $1 $2 $((s+i*n)) $n 2>&1 | grep -v "^seed [0-9]*: None err None" | cut -c1-1200 > /tmp/sweep.$i.txt & done; wait
cat /tmp/sweep.?.txt | sed -E 's/^seed ([0-9]+): [^"]*"([^"]*)".*/\2/' | cut -c1-60 | sort | uniq -c | sort -rn | head -40
for r in $(cat /tmp/sweep.?.txt | sed -nE 's/^seed ([0-9]+): [^"]*"([^"]*)".*/\2/p' | sort -u); do grep -h "\"$r\"" /tmp/sweep.?.txt | head -1 | cut -c1-330; done
