#!/bin/bash
# check.sh ID quick|thorough: decides one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
VERIF_DIR=$PWD; export VERIF_DIR
D=$(mktemp -d /tmp/vsym-check.XXXXXX) || exit 2
chmod 755 "$D"
trap '/bin/rm -rf "$D"' EXIT
export TMPDIR="$D"
go build -o "$D/vsym" ./cmd/vsym || exit 2
"$D/vsym" check "$1" -tier "${2:-quick}"
