#!/bin/bash
# trybug.sh [-n] ID...   apply each planted bug to /repo: suite, demo, check (-n: no suite)
ns=0; [ "$1" = -n ] && { ns=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/vfx-demo.txt 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/vfx-demo2.txt 2>&1); b=$?
  s=skipped; [ $ns = 0 ] && s=$(/verif/tools/suite.sh)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check $p >/tmp/vfx-check.txt 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p demo clean=$a bug=$b | $s | check exit $c $(grep -c '^VIOLATION' /tmp/vfx-check.txt) $(grep -h 'observed:\|no-failing' /tmp/vfx-check.txt | head -1 | cut -c1-140)"
done
