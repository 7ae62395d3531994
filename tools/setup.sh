#!/bin/sh
# Checks that the verifier builds offline; each check builds its own copy.
set -e
cd "$(dirname "$0")/../gcv"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GONOSUMDB="*" GOSUMDB=off CGO_ENABLED=0
go build -o /dev/null .
