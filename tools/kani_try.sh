#!/bin/bash
# dev helper: kani_try.sh PKG HARNESS... 
cd /tmp/kt/ws && python3 /verif/tools/shadow.py /tmp/kt/ws
export REVMC_VERIF=/verif/harness RUSTFLAGS="--cfg revmc_verif" CARGO_NET_OFFLINE=true
pkg=$1; shift
args=(); for h in "$@"; do case $h in -*) args+=("$h");; *) args+=(--harness "$h");; esac; done
cargo kani -p $pkg -Z unstable-options -Z stubbing -Z function-contracts -j 8 --output-format=terse "${args[@]}" 2>&1 | grep -v '^warning\|^ *|\|^ *=\|^ *-->\|^$\|^[0-9. ]*|' | tail -${TAIL:-60}
