#!/bin/bash
# mut.sh PID FILE SED-EXPR : run a check on a scratch copy of /repo with one edit (development aid)
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/. $d/; rm -rf $d/_build; sed -i -E "$3" $d/$2; git -C $d diff --stat | head -1; git -C $d diff -U0 | grep '^[+-]' | grep -v '^[+-][+-]' | head -6
cd "$(dirname "$0")/.." && VP_REPO=$d python3 check.py $1 | cut -c1-240 | tail -${4:-8}; echo "exit $?"; rm -rf "$d"
