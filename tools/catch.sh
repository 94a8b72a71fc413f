#!/bin/bash
# usage: catch.sh SEED [Cxx ...]   runs the checks of the seed's property (or those given) on a copy of /repo with it
id=$1; shift
d=$(mktemp -d /tmp/catch_XXXXXX)
cp -a /repo "$d/repo"
git -C "$d/repo" apply /verif/seeded/$id/patch.diff || exit 3
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cd /verif
for p in $props; do
    t=$(date +%s)
    MC_REPO=$d/repo timeout 900 /opt/venv/bin/python -m mc.run $p > "$d/log" 2>&1
    echo "$id $p rc=$? $(($(date +%s) - t))s $(grep -m1 -h VIOLATION "$d/log")"
done
/bin/rm -rf "$d"
