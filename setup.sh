#!/bin/bash
# Warms the build cache; the checks build everything themselves.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
go build -o /dev/null ./cmd/vsym && go build -o /dev/null ./cmd/replay
