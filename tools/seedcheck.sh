#!/bin/bash
# seedcheck.sh SEED MODULE...: run the quick checks MODULE against a planted bug, in a scratch clone of /repo
s=$1; shift
d=$(mktemp -d)
git clone -q /repo "$d/repo" && git -C "$d/repo" apply "/verif/seeded/$s/patch.diff" || exit 9
cd /verif || exit 9
for m in "$@"; do
  t=$(date +%s)
  GEMPAKIO_REPO=$d/repo VERIF_TIER=quick ./check.sh "$m" > "$d/out" 2>&1; rc=$?
  echo "$s $m rc=$rc $(( $(date +%s)-t ))s $(grep -m1 VIOLATION "$d/out")"
done
rm -rf "$d"
