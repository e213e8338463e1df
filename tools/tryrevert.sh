#!/bin/bash
# tryrevert.sh COMMIT CHECK: run a check against a copy of /repo with one fix commit undone (a repaired defect must be reported if it returns)
W=$(mktemp -d /tmp/tb.XXXXXX); git clone -q /repo $W/r && git -C $W/r -c user.name=v -c user.email=v@v revert --no-edit $1 >/dev/null && cd /verif && VF_REPO=$W/r VF_EVIDENCE=$W python3 check.py $2 > $W/log 2>&1; rc=$?; echo "revert $1 $2 rc=$rc $(grep -c ^VIOLATION $W/log) violations"; grep -A2 ^VIOLATION $W/log | head -${LINES_MAX:-3}; [ $rc = 1 ] || tail -5 $W/log; case $W in /tmp/tb.*) rm -rf "$W";; esac
