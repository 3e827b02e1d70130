#!/bin/bash
# apply each planted bug (args: ids; default all) to a scratch copy of /repo, run its property's check from a copy of
# /verif there; prints caught/missed and records it in tools/plants_status.json
w=$(mktemp -d /tmp/rp-XXXXXX)
trap 'rm -rf "$w"' EXIT
cd /verif
cp -a /repo "$w/repo"
mkdir "$w/verif"; cp -a bin contracts vc *.json properties.jsonl "$w/verif/"; mkdir "$w/verif/evidence" "$w/verif/replays"
export VERIF_REPO=$w/repo
for d in ${*:-$(ls seeded)}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C "$w/repo" apply "/verif/seeded/$d/patch.diff" || { echo "$d NOAPPLY"; continue; }
  t0=$(date +%s)
  (cd "$w/verif"; timeout 900 bin/check $p quick) > "$w/out" 2>&1; rc=$?
  git -C "$w/repo" checkout -- .
  /opt/venv/bin/python /verif/tools/plantstatus.py "$d" $rc "$w/out"
  echo "$d $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION "$w/out" | cut -c1-150)"
done
