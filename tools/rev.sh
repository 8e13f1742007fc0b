#!/bin/bash
# rev.sh CHECK COMMIT... : run CHECK on a copy with the commits reverted
c=$1; shift
rm -rf /tmp/rv; git clone -q /repo /tmp/rv; cd /tmp/rv; git config user.email a@b; git config user.name n
for k in "$@"; do git revert --no-edit $k >/dev/null 2>&1 || { echo "conflict $k"; }; done
cd /verif; VERIF_REPO=/tmp/rv ./check $c 2>&1 | tail -3
rm -rf /tmp/rv
