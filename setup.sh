#!/usr/bin/env bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p bin evidence replays
(cd engine && go build -o ../bin/gosym .)
echo built
