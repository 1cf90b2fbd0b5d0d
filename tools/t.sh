#!/bin/bash
# compact run of several checks
cd /verif
for c in "$@"; do timeout 900 python3 run.py $c quick 2>&1 | cut -c1-700 | grep -v "^VIOLATION" ; python3 tools/ratios.py $c | grep -av " 0$" | awk '$NF>0.03 || NR==1'; done
