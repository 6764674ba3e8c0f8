#!/bin/bash
# bugtest.sh ID... : stable tests of /repo HEAD + patch in a copy
. /opt/vp/env.sh
export PYTHONPYCACHEPREFIX=/tmp/bt_pyc
for id in "$@"; do
 W=/tmp/bt_$id
 git -C /repo worktree add -f --detach $W HEAD >/dev/null 2>&1
 cd $W && git apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; continue; }
 PYTHONPATH=/opt/vp/plugins timeout -k 10 850 xvfb-run -a $PY -m pytest -q -p no:cacheprovider -p vp_seed -n 4 --dist worksteal --timeout=600 --continue-on-collection-errors -o junit_family=xunit2 > /tmp/bt_$id.log 2>&1
 echo "$id $(tail -1 /tmp/bt_$id.log)  $(grep -c '^FAILED' /tmp/bt_$id.log) failed"; grep '^FAILED' /tmp/bt_$id.log
 cd /; git -C /repo worktree remove --force $W
done
