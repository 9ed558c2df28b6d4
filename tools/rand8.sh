#!/bin/bash
# dev helper: random differential search on 8 cores; SECS [SEED0]
s0=${2:-100}
for s in 0 1 2 3 4 5 6 7; do (timeout 400 /verif/build/t/debug/irx fuzz ${F:-all} $((s0+s)) $1 /tmp/cur$s > /tmp/o$s 2>&1 )& done; wait
grep -h SUMMARY /tmp/o[0-7]
cat /tmp/o[0-7] | grep -v SUMMARY | cut -c1-${3:-300} | head -${4:-40}
