#!/bin/bash
# runs the check of each planted bug against a copy of /repo with it: runseeds.sh [tier] [id...]
# (the copy is mounted over /repo in a mount namespace of this script only)
if [ -z "$SEED_NS" ]; then
  rm -rf /tmp/seedrepo && cp -a /repo /tmp/seedrepo && git -C /tmp/seedrepo checkout -q -- . || exit 1
  SEED_NS=1 unshare -m bash -c 'mount --bind /tmp/seedrepo /repo && exec bash "$@"' x "$0" "$@"
  rc=$?; rm -rf /tmp/seedrepo; exit $rc
fi
tier=${1:-quick}; shift
cd /repo || exit 1
for d in /verif/seeded/*/; do
  id=$(basename $d)
  [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || { echo "$id does not apply"; continue; }
  t0=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=$tier timeout 900 bash /verif/check.sh $p $tier 2>&1); rc=$?
  git checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
done
