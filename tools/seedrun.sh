#!/bin/bash
# seedrun.sh [tier] id...: run the property's check against a scratch copy of /repo with the planted bug
tier=quick; [ "$1" = thorough ] && { tier=thorough; shift; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  p=${CHECK:-$p}
  /verif/tools/wt.sh; (cd /tmp/wt && patch -s -p1 < $d/patch.diff) || { echo "$id PATCH"; continue; }
  s=$(date +%s)
  VERIF_REPO=/tmp/wt timeout 900 /verif/bin/verif check $p -tier $tier > /tmp/pl/out.txt 2>&1; rc=$?
  echo "$id $p exit $rc $(( $(date +%s)-s ))s  $(grep -cE '^VIOLATION' /tmp/pl/out.txt) $(grep UNCONF /tmp/pl/out.txt | cut -c1-160 | head -2)"
done
