#!/bin/bash
# Warm the build cache: build the harness with and without the race detector.
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOENV=off GOSUMDB=off CGO_ENABLED=1
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
cd "$here/harness" && go build -race -tags verif -o /dev/null . && go build -tags verif -o /dev/null .
