#!/bin/bash
# development helper: apply a planted bug to /repo, run its property's check, undo
for id in "$@"; do
  d=/verif/seeded/$id; p=$(jq -r .property $d/meta.json)
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  (cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p > /tmp/try.$id.out 2>&1; echo "$id $p rc=$?"; grep -E "VIOLATION|KNOWN" /tmp/try.$id.out | head -3
   if grep -q "VIOLATION.*no-failing" /tmp/try.$id.out; then w="caught by a failed obligation (no failing input)"; elif grep -q "^failed obl" /tmp/try.$id.out; then w="caught by failed obligations and a replayed failing input"; elif grep -q VIOLATION /tmp/try.$id.out; then w="caught by the bounded replay only (the changed code leaves the subset, or the obligation does not see it)"; else w="MISSED"; fi
   touch tools/seed_results.txt; sed -i "/^$id /d" tools/seed_results.txt; echo "$id $w" >> tools/seed_results.txt; sort -o tools/seed_results.txt tools/seed_results.txt)
  git -C /repo checkout -q -- .
done
