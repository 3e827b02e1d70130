#!/bin/bash
# bounded evaluation only, N inputs per unit (default 600), all properties or those given: prints violations
cd /verif
for m in ${*:-$(ls contracts | grep -o '^c[0-9][0-9]')}; do
  echo "$m $(NOPROOF=1 V=0 N=${N:-600} SEED=${SEED:-5} timeout 1500 /opt/venv/bin/python tools/try.py $m 2>&1 | grep -B3 -E "BOUNDED.*\{|Error" | cut -c1-700)"
done
