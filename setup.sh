#!/bin/bash
# Builds the checking engine from the committed sources (offline, vendored).
set -e
cd "$(dirname "$0")"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=0
unset GOOS GOARCH
mkdir -p build evidence
(cd engine && GOFLAGS=-mod=vendor go build -o ../build/engine .)
./build/engine -selftest
