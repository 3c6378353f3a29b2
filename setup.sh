#!/bin/bash
# Builds the harness once, to see that it builds offline and to warm the build cache. Every check builds for itself.
V=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cd "$V/harness" && go vet . && go build -buildvcs=false -o /dev/null .
