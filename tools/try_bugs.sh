#!/bin/bash
# try_bugs.sh [--fast] ID... : demo on the clean tree, apply, tests, demo, check, revert
FAST=0; [ "$1" = --fast ] && { FAST=1; shift; }
V="$(cd "$(dirname "$0")/.." && pwd)"; cd "$V"
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 1; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  cy=0; grep -q '^+++ b/src_cython' $d/patch.diff && { cy=1; bash /opt/vp/build.sh >/dev/null 2>&1; }
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1); b=$?
  t=skip
  if [ $FAST = 0 ]; then
    bash /opt/vp/test.sh /tmp/t_$id.json >/dev/null 2>&1
    t=$(python3 -c "
import json
r=json.load(open('/tmp/t_$id.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=r.get('passed',r); p=set(p if isinstance(p,list) else [k for k,v in p.items()])
print('%d/%d'%(sum(x in p for x in s),len(s)))"); rm -f /tmp/t_$id.json
  fi
  t0=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $prop --tier quick >/tmp/chk_$id.log 2>&1; c=$?
  t1=$(date +%s)
  git -C /repo checkout -q -- .
  [ $cy = 1 ] && bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id $prop demo clean=$a bug=$b tests=$t check=$c ($((t1-t0))s) $(grep -c VIOLATION /tmp/chk_$id.log) $(grep -B1 VIOLATION /tmp/chk_$id.log | head -1 | cut -c1-160)"
done
