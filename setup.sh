#!/bin/sh
# Builds the verifier and warms the build cache for the replay harnesses.
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$(dirname "$0")/gvc" || exit 1
go build -o ../bin/gvc . || exit 1
(cd /repo && go test -count=1 -run XXX ./... >/dev/null 2>&1)
exit 0
