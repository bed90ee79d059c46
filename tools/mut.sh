#!/bin/bash
# mut.sh FILE SED_EXPR KEYS... : run gvc on a scratch copy with one edit
f=$1; e=$2; shift 2
rsync -a --delete --exclude .git /repo/ /tmp/mut/ 2>/dev/null || { cp -a /repo/. /tmp/mut/; }
sed -i -E "$e" /tmp/mut/$f
diff -r -q /repo /tmp/mut -x .git
(cd /tmp/mut && . /opt/vp/env.sh && cd /tmp/mut && go build ./lib-secs2-hsms-go/... ./hsms/... ./gem/... . ) || echo NOBUILD
/verif/bin/gvc fn -repo /tmp/mut -long 3000 -quick 1000 "$@" 2>&1 | cut -c1-260
