#!/bin/bash
# check.sh PROPERTY [quick|thorough]
. /opt/vp/env.sh
[ -n "$2" ] && export VERIF_TIER=$2
export VERIF_SEED=${VERIF_SEED:-1}
if [ ! -x /verif/bin/gvc ] || [ -n "$(find /verif/gvc -name '*.go' -newer /verif/bin/gvc | head -1)" ]; then
  (mkdir -p /verif/bin; cd /verif/gvc && GOFLAGS=-mod=mod GOSUMDB=off go build -o ../bin/gvc .) || exit 2
fi
cd /verif && exec ./bin/gvc check "$1"
