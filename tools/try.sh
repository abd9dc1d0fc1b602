#!/bin/bash
# try.sh ID [PROPERTY]: does the check of the property report the planted change ID? Applies it to /repo and undoes it.
id=$1; prop=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "/verif/seeded/$id/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
SECONDS=0
(cd /verif && ./check.py "$prop") > /tmp/try.$id.log 2>&1; rc=$?
echo "$id $prop rc=$rc ${SECONDS}s $(grep -c '^VIOLATION property='$prop' ' /tmp/try.$id.log) violation lines; $(grep -m1 -A3 -E 'MISMATCH|LEAK' /tmp/try.$id.log | tr '\n' ' ' | cut -c1-250)"
