#!/bin/bash
. /opt/vp/env.sh
cd /verif/gvc && GOFLAGS=-mod=mod GOSUMDB=off go build -o ../bin/gvc .
