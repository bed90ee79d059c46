#!/bin/bash
# builds the verifier (offline) and warms the Go build cache for the harnesses
. /opt/vp/env.sh
mkdir -p /verif/bin /verif/work /verif/evidence
cd /verif/gvc && GOFLAGS=-mod=mod GOSUMDB=off go build -o ../bin/gvc . || exit 1
cd /repo && go vet -h >/dev/null 2>&1
go build ./... >/dev/null 2>&1
for d in . codec utils common hsms gem lib-secs2-hsms-go/pkg/ast lib-secs2-hsms-go/pkg/parser/hsms; do
  go test -vet=off -count=1 -run '^$' ./$d >/dev/null 2>&1
done
exit 0
