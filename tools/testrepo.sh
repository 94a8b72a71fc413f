#!/bin/bash
# runs the repository's stable tests on a copy of /repo's working tree, in a private namespace
if [ -z "$CHECKSEED_NS" ]; then
    CHECKSEED_NS=1 exec unshare -nm "$0" "$@"
fi
mount --make-rprivate /
ip link set lo up
mount -t tmpfs none /mnt
cp -a /repo /mnt/repo
mount -t tmpfs none /tmp
chmod 1777 /tmp
mount --bind /mnt/repo /repo
cd /repo
PYTHONDONTWRITEBYTECODE=1 bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
echo "rc=$? $(tail -n1 /tmp/t.log)"
python3 - <<'P'
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/t.json"))
print(json.dumps(t)[:600])
P
