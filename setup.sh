#!/bin/bash
# builds the verifier, offline, from the module cache
cd "$(dirname "$0")/gov" || exit 2
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0 GOSUMDB=off
mkdir -p ../bin ../evidence
go build -o ../bin/gov .
