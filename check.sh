#!/bin/bash
# Usage: check.sh ID [tier]   Builds the harness from the committed sources and runs one check.
# Exit 0: held, 1: violation (VIOLATION line printed), 2: error of the check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOENV=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
[ -x /opt/veriftools/go1.27.3/bin/go ] && export GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOCACHE=$VERIF_DIR/.cache/go CGO_ENABLED=0
unset FBDPATH
mkdir -p .cache/bin evidence || exit 2
(cd harness && go build -o ../.cache/bin/vh .) || exit 2
[ "$1" = build ] && exit 0
exec .cache/bin/vh check "$@"
