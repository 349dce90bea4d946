#!/bin/bash
# run every check (quick) and print one line each
cd "$(dirname "$0")/.." ; mkdir -p /tmp/ev
for p in ${*:-props/c[0-9]*.py}; do ( r=$(EVIDENCE_DIR=/tmp/ev timeout 900 python3-vt $p 2>&1 | tail -1); echo "$p: $r" ) & while [ $(jobs -r | wc -l) -ge 4 ]; do sleep 0.2; done; done; wait
