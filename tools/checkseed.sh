#!/bin/bash
# usage: checkseed.sh ID [demo|test|all]   confirms a planted change in a private namespace over a copy of /repo:
# the demonstration passes without and fails with the change, and the stable tests pass with it.
id=$1; what=${2:-all}
if [ -z "$CHECKSEED_NS" ]; then
    CHECKSEED_NS=1 exec unshare -nm "$0" "$@"
fi
mount --make-rprivate /
ip link set lo up
mount -t tmpfs none /mnt
cp -a /repo /mnt/repo
cp -a /verif/seeded/$id /mnt/seed
mount -t tmpfs none /tmp
chmod 1777 /tmp
mount --bind /mnt/repo /repo
cd /repo
find . -name __pycache__ -prune -exec rm -rf {} +
export PYTHONDONTWRITEBYTECODE=1
s() { date +%s; }
if [ $what != test ]; then
    t=$(s); bash /mnt/seed/demo.sh > /tmp/clean.log 2>&1 < /dev/null; echo "$id demo clean: rc=$? $(($(s) - t))s $(tail -n1 /tmp/clean.log)"
fi
git apply /mnt/seed/patch.diff || echo "$id PATCH FAILS"
if [ $what != test ]; then
    t=$(s); bash /mnt/seed/demo.sh > /tmp/bad.log 2>&1 < /dev/null; echo "$id demo patched: rc=$? $(($(s) - t))s $(tail -n1 /tmp/bad.log)"
fi
if [ $what != demo ]; then
    bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
    echo "$id tests: $(tail -n1 /tmp/t.log)"
fi
