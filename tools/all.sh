#!/bin/bash
# developer: run every contract module, print one line per unit
cd "$(dirname "$0")/.."
for m in ${@:-contracts/c*.py}; do m=$(basename $m .py); PAR=1 timeout 1800 /opt/venv/bin/python tools/try.py $m 2>&1 | cut -c1-${W:-300}; done
