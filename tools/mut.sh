#!/bin/bash
# tools/mut.sh PROP 'old' 'new' FILE : plant a textual mutant in a scratch copy and run the check there
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/mlpaper $d/
python3 - "$d/mlpaper/$4" "$2" "$3" <<'P'
import sys
p,o,n=sys.argv[1:]
s=open(p).read(); assert o in s, "not found: "+o
open(p,'w').write(s.replace(o,n,1))
P
[ $? = 0 ] && VERIF_DEV_REPO=$d VERIF_DEV_EVIDENCE=$d/ev /opt/venv/bin/python /verif/check.py $1 | cut -c1-220 | tail -${5:-4}
[ -n "$KEEP" ] && echo $d || rm -rf "$d"
