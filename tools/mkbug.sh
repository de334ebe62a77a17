#!/bin/bash
# mkbug.sh ID : takes the uncommitted diff of the scratch worktree /tmp/bug (copy of /repo) as seeded/ID/patch.diff,
# verifies: applies, builds, stable tests pass, demo passes clean and fails patched.
set -u
ID=$1; D=/verif/seeded/$ID
trap "git -C /tmp/bug checkout -q -- ." EXIT
mkdir -p $D
git -C /tmp/bug diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty diff"; exit 1; }
rm -rf "/tmp/demo_$ID"; mkdir -p "/tmp/demo_$ID"; cp -r $D/demo* "/tmp/demo_$ID/"; [ -d $D/sim ] && cp -r $D/sim "/tmp/demo_$ID/"
cd /tmp/bug && git stash -q
( timeout 300 bash "/tmp/demo_$ID/demo.sh" >/tmp/demo_clean.log 2>&1 ); c=$?
git stash pop -q
( timeout 300 bash "/tmp/demo_$ID/demo.sh" >/tmp/demo_bug.log 2>&1 ); b=$?
rm -rf "/tmp/demo_$ID"
echo "demo clean=$c bug=$b"; tail -2 /tmp/demo_bug.log
[ $c = 0 ] && [ $b != 0 ] || { echo "DEMO BAD"; tail -5 /tmp/demo_clean.log; rm -rf "/verif/seeded/$ID"; exit 1; }
[ -n "${DEFER:-}" ] && { echo deferred $ID; exit 0; }
# stable tests on the patched tree
git -C /repo apply $D/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1 && bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
git -C /repo checkout -q -- .
python3 -c "
import json;d=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(d['passed']);print('stable tests missing:',sorted(m)[:5]);raise SystemExit(bool(m))" || { echo TESTS BAD; rm -rf "/verif/seeded/$ID"; exit 1; }
git -C /tmp/bug checkout -q -- .
echo kept $ID
