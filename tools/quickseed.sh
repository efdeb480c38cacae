#!/bin/bash
# quickseed.sh ID...: applies planted bugs in a scratch worktree, runs demo and the property's check against it (no tests)
for i in "$@"; do
  w=$(mktemp -d /tmp/qs_XXXXXX)
  git -C /repo worktree add -q --detach "$w/r" HEAD
  git -C "$w/r" apply /verif/seeded/$i/patch.diff || echo "$i: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  (cd "$w/r"; PYTHONPATH=$w/r bash /verif/seeded/$i/demo.sh > "$w/demo.log" 2>&1); d=$?
  (cd /verif; VERIF_REPO=$w/r python3 check.py $p > "$w/check.log" 2>&1); c=$?
  echo "$i demo=$d check=$c $(grep -A1 VIOLATION "$w/check.log" | grep -v VIOLATION | head -2 | cut -c1-200)"
  [ $d = 0 ] && tail -2 "$w/demo.log"
  git -C /repo worktree remove --force "$w/r"; rm -rf "$w"
done
