#!/bin/bash
# vac.sh PROP KEYS...: add a false postcondition to every function and interface contract named; each must then fail
P=$1; shift
mkdir -p /tmp/vac; rm -f /tmp/vac/*; cp /verif/contracts/*.gvc /tmp/vac/
python3 - "$@" <<'PY'
import sys,re,glob
for k in sys.argv[1:]:
    for f in glob.glob('/tmp/vac/*.gvc'):
        s=open(f).read()
        s2=re.sub(r'(?m)^func '+re.escape(k)+r'\(.*$', lambda m:m.group(0)+'\n  ensures zz: 1 == 2', s)
        open(f,'w').write(s2)
PY
cd /verif && bin/gvc fn -prop $P -quick 500 -long 3000 -contracts /tmp/vac "$@" 2>&1 | grep -E "^OK|FAIL|zz" | cut -c1-160
