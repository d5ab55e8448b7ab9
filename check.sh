#!/bin/bash
# ./check.sh PROPERTY   (setup: ./check.sh --setup)
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local
B=$D/build
mkdir -p "$B" || exit 2
if [ ! -x "$B/gov" ] || [ -n "$(find "$D/gov" -newer "$B/gov" -name '*.go' -print -quit)" ]; then
	(cd "$D/gov" && go build -o "$B/gov.$$" ./cmd/gov && mv "$B/gov.$$" "$B/gov") || exit 2
fi
if [ "$1" = --setup ]; then
	# warm the build cache for the packages under verification
	cd /repo && go test -c -vet=off -o /dev/null ./pkg/encoding >/dev/null 2>&1
	go list -export -deps ./pkg/... ./spop ./peers/... >/dev/null 2>&1
	exit 0
fi
cd "$D" && exec "$B/gov" check "$1"
