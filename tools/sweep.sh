#!/bin/bash
# run the quick check of every property in a copy of /verif against $1 (default: /repo, in place, evidence kept)
w=/verif
if [ -n "$1" ]; then
  w=$(mktemp -d /tmp/sw-XXXXXX); trap 'rm -rf "$w"' EXIT
  cp -a /verif/bin /verif/contracts /verif/vc /verif/*.json /verif/properties.jsonl "$w/"; mkdir "$w/evidence" "$w/replays"
  export VERIF_REPO=$1
fi
cd "$w"
for k in $(seq -w 1 31); do
  t0=$(date +%s); timeout 900 bin/check C$k quick > "$w/sweep.out" 2>&1; rc=$?
  echo "C$k rc=$rc $(( $(date +%s) - t0 ))s $(grep -h 'VIOLATION\|UNDECIDED\|KNOWN' "$w/sweep.out" | cut -c1-${W:-220} | tr '\n' ';')"
done
rm -f "$w/sweep.out"
