#!/bin/bash
# trybug.sh ID [PROP...] : applies seeded/ID to /repo, runs the checks, undoes it.
ID=$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$ID/patch.diff || exit 9
for p in $P; do
  python3 /verif/check.py $p > /tmp/try.log 2>&1; rc=$?
  echo "$ID $p rc=$rc $(grep -m1 '^VIOLATION' /tmp/try.log) $(grep -m1 'facet=' /tmp/try.log | cut -c1-120)"
done
git -C /repo checkout -q -- .
