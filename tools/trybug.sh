#!/bin/bash
# trybug.sh SEED [CHECK]: run a check against a copy of /repo with a planted bug applied
S=$1; P=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$S/meta.json'))['property'])")}; W=$(mktemp -d /tmp/tb.XXXXXX); git clone -q /repo $W/r && git -C $W/r apply /verif/seeded/$S/patch.diff && cd /verif && VF_REPO=$W/r VF_EVIDENCE=$W python3 check.py $P > $W/log 2>&1; rc=$?; echo "$S $P rc=$rc $(grep -c ^VIOLATION $W/log) violations"; grep -A2 ^VIOLATION $W/log | head -${LINES_MAX:-6}; [ $rc = 1 ] || tail -5 $W/log; case $W in /tmp/tb.*) rm -rf "$W";; esac
