#!/bin/bash
# usage: trybug.sh <bug id>...   runs the bug's own check against a copy of /repo with the bug
one() {
  b=$1; d=/verif/seeded/$b
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /tmp/trybug_XXXXXX)
  cp -a /repo "$t/repo"; git -C "$t/repo" checkout -q -- .
  git -C "$t/repo" apply "$d/patch.diff" || { echo "$b: does not apply"; rm -rf "$t"; return; }
  s=$(date +%s)
  out=$(PIBRONIC_REPO="$t/repo" PIBRONIC_EVIDENCE="$t" /verif/check.sh "$prop" "${TIER:-quick}" 2>&1); rc=$?
  echo "$b [$prop] rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 'clause:' | cut -c1-200)  violations=$(echo "$out" | grep -c VIOLATION)"
  [ $rc -ge 2 ] && echo "$out" | tail -15; true
  rm -rf "$t"
}
export -f one
printf '%s\n' "$@" | xargs -P "${JOBS:-3}" -I{} bash -c 'one {}'
