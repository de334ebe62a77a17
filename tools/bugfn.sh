mkweb() { # id prop needs breaks ; demo body on stdin
 D=/verif/seeded/$1; mkdir -p $D; { cat /verif/tools/webdemo_head.py; echo; cat; } > $D/demo.py
 printf '#!/bin/bash\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nPYTHONDONTWRITEBYTECODE=1 exec $PY "$(dirname "$0")/demo.py"\n' > $D/demo.sh
 python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
 bash /verif/tools/mkbug.sh $1 && bash /verif/tools/trybug.sh $1; }
sub() { python3 - "$@" <<'P'
import sys
p='/tmp/bug/src/keri/'+(sys.argv[3] if len(sys.argv)>3 else 'db/webdbing.py')
s=open(p).read(); a,b=sys.argv[1],sys.argv[2]
assert s.count(a)>=1,(s.count(a),a)
s=s.replace(a,b,1); open(p,'w').write(s)
P
}
