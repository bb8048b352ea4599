#!/bin/bash
# Builds the checker from the committed sources (offline, vendored).
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p ../bin
go build -o ../bin/gosym .
