#!/bin/bash
# mksim.sh ID PROP NEEDS BREAKS < demo body : demo with the simulated third-party layer beside it, then mkbug.sh
D=/verif/seeded/$1; mkdir -p $D/sim
cp /verif/sim/boot.py /verif/sim/simclock.py /verif/sim/kelworld.py $D/sim/
cp -r /verif/sim/stubs /verif/sim/native $D/sim/; find $D/sim -name __pycache__ -type d -prune -exec rm -r {} +
case $1 in grp-*) cp /verif/tools/demo_group.py $D/;; iss-*) cp /verif/tools/demo_issuer.py $D/;; esac
{ cat /verif/tools/demo_head.py; echo; cat; } > $D/demo.py
printf '#!/bin/bash\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nPYTHONDONTWRITEBYTECODE=1 exec $PY "$(dirname "$0")/demo.py"\n' > $D/demo.sh
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
bash /verif/tools/mkbug.sh $1
