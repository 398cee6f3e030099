#!/bin/bash
# usage: seed.sh ID PROPERTY   (with the change applied in /repo's working tree, and seeded/ID/demo.sh written)
# Saves the change as seeded/ID/patch.diff, confirms it, runs the property's check, and undoes it.
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 2; }
echo "== tests"; bash /tmp/w/t.sh
echo "== demo with patch (want nonzero)"; (cd /repo && timeout 300 bash $d/demo.sh >/tmp/w/demo.log 2>&1; echo "rc=$?"; tail -3 /tmp/w/demo.log)
for p in $prop; do echo "== check $p"; (cd /verif && ./check $p > /tmp/w/check.log 2>&1; echo "rc=$?"; grep -v KNOWN /tmp/w/check.log | cut -c1-220 | head -${LINES_:-6}; grep VIOLATION /tmp/w/check.log); done
git -C /repo checkout -- .
echo "== demo without (want 0)"; (cd /repo && timeout 300 bash $d/demo.sh >/tmp/w/demo.log 2>&1; echo "rc=$?"; tail -2 /tmp/w/demo.log)
