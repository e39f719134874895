#!/bin/bash
# usage: tryrefactor.sh "modes" [property ids...]   all checks against a rewritten copy of /repo have to be quiet
modes=$1; shift
ids=${*:-P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18}
t=$(mktemp -d /tmp/tryref_XXXXXX)
cp -a /repo "$t/repo"; git -C "$t/repo" checkout -q -- .
python3 /verif/tools/refactor.py "$t/repo" $modes || exit 1
echo "== $modes: $(git -C "$t/repo" diff --shortstat)"
(cd "$t/repo" && PYTHONPATH="$t/repo" PYTHONHASHSEED=0 MPLBACKEND=Agg timeout 300 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --randomly-seed=12345 --randomly-dont-reorganize tests 2>&1 | tail -12)
one() {
  out=$(PIBRONIC_REPO="$2/repo" /verif/check.sh "$1" quick 2>&1); rc=$?
  echo "$modes: $1 rc=$rc $(echo "$out" | grep -m2 'clause:' | cut -c1-300 | tr '\n' ' ')"
  [ $rc -ge 1 ] && echo "$out" | tail -8 | cut -c1-600; true
}
export -f one; export modes
printf '%s\n' $ids | xargs -P "${JOBS:-3}" -I{} bash -c "one {} $t"
rm -rf "$t"
