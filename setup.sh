#!/bin/bash
# Compiles the shared dependencies of the checks once (each check rebuilds what
# it needs from /repo anyway).
cd "$(dirname "$0")/harness" || exit 1
export HOME="${HOME:-/root}"
export PATH="/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GONOSUMDB='*'
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
go build ./... && go version
