#!/bin/bash
# Runs the check of its property against a scratch copy of /repo with each planted bug (or those named) applied.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo $w/repo
  git -C $w/repo checkout -q -- . 2>/dev/null
  git -C $w/repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; rm -r $w; continue; }
  mkdir $w/p; ln -s $w/repo/pylib $w/p/amara3
  t=$(date +%s)
  VERIF_REPO=$w/repo VERIF_AMARA=$w/p python3-vt symx/$([ $p = C26 ] && echo ccheck || echo check).py $p --tier quick > $w/try.log 2>&1; rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - t ))s $(grep -c VIOLATION $w/try.log) $(grep -m1 'counterexample' $w/try.log | cut -c1-150)"
  rm -r $w
done
