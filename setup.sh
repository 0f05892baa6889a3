#!/bin/bash
# Builds the symbolic execution engine (offline) when it is missing or stale.
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p /verif/bin /verif/out /verif/evidence
if [ ! -x /verif/bin/symx ] || [ -n "$(find /verif/symx -newer /verif/bin/symx -name '*.go' -print -quit)" ]; then
  (cd /verif/symx && GOWORK=off GOFLAGS=-mod=mod go build -o /verif/bin/symx .) || exit 2
fi
