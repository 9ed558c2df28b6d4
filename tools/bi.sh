#!/bin/bash
# dev helper: rebuild the irx harness against /repo
cd /verif && python3 tools/shadow.py build/ws harness/irx && cd build/ws && CARGO_NET_OFFLINE=true cargo build -q -p irx --target-dir /verif/build/t 2>&1 | grep -A12 "^error\|^warning: unused" | head -${1:-60}
