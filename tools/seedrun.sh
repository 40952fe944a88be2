#!/bin/bash
# seedrun.sh ID...: runs the check of each planted bug's property against a scratch copy of /repo carrying the bug.
for id in "$@"; do
  d=/verif/seeded/$id; w=$(mktemp -d /tmp/seedrun.XXXXXX); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a /repo $w/repo; cp -a /verif $w/v 2>/dev/null; rm -rf $w/v/seeded $w/v/.git; git -C $w/repo checkout -q -- . ; git -C $w/repo apply $d/patch.diff || echo "$id APPLY FAILED"
  s=$(date +%s); (cd $w/v && VERIF_SEED=1 VERIF_TIER=quick VP_REPO=$w/repo timeout 900 python3 check.py ${PROP:-$p} --tier ${TIER:-quick} > $w/out 2>&1); rc=$?
  echo "$id ${PROP:-$p} rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION $w/out | sed 's/replay=.*//') $(grep -v VIOLATION $w/out | grep -m1 -i 'assert\|error\|fail' | cut -c1-140)"
  [ -n "$KEEP" ] && cp $w/out /tmp/seed/$id.out
  rm -rf "$w"
done
