#!/bin/bash
# tryseeds.sh [id...]: apply each planted bug to a scratch copy and run its property's check against the copy
cd /verif/seeded
for s in ${@:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  w=$(mktemp -d); git clone -q /repo $w/repo; git -C $w/repo apply $PWD/$s/patch.diff || echo "no apply"
  a=$(date +%s)
  out=$(VERIF_REPO=$w/repo VERIF_EVIDENCE=$w/ev /verif/bin/check $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(( $(date +%s)-a ))s $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ' | cut -c1-230)"
  rm -rf "$w"
done
