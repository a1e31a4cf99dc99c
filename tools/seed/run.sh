#!/bin/bash
# run.sh [id[:C01,C02] ...]: applies each kept change in turn to a scratch copy of /repo that only this script's mount
# namespace sees at /repo, runs its property's quick check (or the ones named after ':')
if [ -z "$SEED_NS" ]; then
  W=$(mktemp -d /tmp/seedns.XXXXXX); cp -a /repo "$W/repo"; cp -a /verif "$W/verif"; mkdir "$W/tmp"
  SEED_NS=$W unshare -m bash -c 'mount --bind $SEED_NS/repo /repo; mount --bind $SEED_NS/verif /verif; exec bash /verif/tools/seed/run.sh "$@"' - "$@"
  rm -rf "$W"; exit
fi
cd /verif; git -C /repo checkout -q -- .
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for x in $ids; do
  id=${x%%:*}; p=${x#*:}; [ "$p" = "$x" ] && p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ "$p" = "all" ] && p=$(ls evidence | grep -o 'C[0-9]*' | sort -u | tr '\n' ' ')
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  for c in ${p//,/ }; do
    t=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bin/check $c > $SEED_NS/out 2>&1; rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - t ))s $(grep -m1 '^minimised' $SEED_NS/out | cut -c1-170)"
  done
  git -C /repo checkout -q -- .
done
