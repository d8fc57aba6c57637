#!/bin/bash
# run.sh <property> [quick|thorough] [-only case]: build the monitors against /repo's working tree, run one check.
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}; shift 2 2>/dev/null || shift $#
export HOME="${HOME:-/root}" PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOENV=off GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}" CGO_ENABLED=1
unset GOOS GOARCH GOEXPERIMENT
race=-race
grep -qE "\"$prop\"" "$here/harness/norace.list" && race=
bin=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/harness" && go build $race -tags verif -o "$bin/mon" .) >"$bin/log" 2>&1; then
  cat "$bin/log"; echo "ERROR: the harness does not build against /repo"; exit 2
fi
"$bin/mon" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -root "$here" "$@"
