#!/bin/bash
# trybug.sh ID...: runs the check of a planted bug's property on a scratch copy with the bug applied
for id in "$@"; do
  d=/tmp/trybug.$$; rm -rf "$d"; cp -a /repo "$d"
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C "$d" apply "/verif/seeded/$id/patch.diff" || echo "APPLY FAILS"
  s=$(date +%s)
  o=$(cd /verif; VERIF_REPO=$d timeout 900 ./check.sh "$p" quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep '^VIOLATION' | head -3 | cut -c1-200 | tr '\n' '|')"
  rm -rf "$d"
done
