#!/bin/bash
# catch.sh ID[:PROP]... : applies the seeded change to a copy of /repo, runs the property's quick check on it
for a in "$@"; do
 id=${a%%:*}; p=${a##*:}; [ "$p" = "$a" ] && p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 w=/tmp/w/c-$id; mkdir -p /tmp/w; rm -rf $w; cp -a /repo $w; git -C $w checkout -q -- .
 git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; continue; }
 t0=$(date +%s)
 HYLAA_REPO=$w VERIF_SEED=1 VERIF_TIER=${TIER:-quick} timeout 900 /verif/check $p ${TIER:-quick} > /tmp/x/catch-$id-$p.log 2>&1; rc=$?
 rm -rf $w
 echo "$id by $p: rc $rc $(( $(date +%s)-t0 )) s  $(grep -m1 VIOLATION /tmp/x/catch-$id-$p.log | cut -c1-200)"
done
