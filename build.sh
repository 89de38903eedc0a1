#!/bin/bash
# build the analyzer from the committed, vendored sources (no network)
cd "$(dirname "$0")/analyzer" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0
export HOME="${HOME:-/root}"
mkdir -p ../bin && go build -o ../bin/analyzer .
