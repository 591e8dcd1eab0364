#!/bin/bash
# bug.sh ID...: run the check of a planted bug's property against it, in copies
which rsync >/dev/null || true
mkdir -p /tmp/bv
[ -d /tmp/br ] || cp -a /repo /tmp/br
(cd /verif && tar c --exclude=.git --exclude=.target --exclude=seeded --exclude=evidence .) | tar x -C /tmp/bv
[ -d /tmp/bv/.target ] || cp -a /verif/.target /tmp/bv/.target
sed -i 's|path = "/repo"|path = "/tmp/br"|' /tmp/bv/harness/Cargo.toml
h=$(git -C /repo rev-parse HEAD)
cd /tmp/br && git fetch -q /repo && git checkout -q -f $h && git clean -fdq
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /tmp/br apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  (cd /tmp/bv && KERIDE_REPO=/tmp/br timeout 900 python3 check.py $p ${TIER:-quick} > /tmp/bug-$id.log 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/bug-$id.log) $(grep -c VIOLATION /tmp/bug-$id.log)"
  git -C /tmp/br checkout -q -f .
done
