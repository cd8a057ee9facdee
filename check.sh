#!/bin/bash
# check.sh <property> <quick|thorough> [extra engine flags]: builds the engine if needed and decides the property.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
P="$1"; T="${2:-quick}"; shift; shift || true
mkdir -p "$V/bin"
(cd "$V/engine" && go build -o "$V/bin/gosym" .) || { echo "engine build failed"; exit 2; }
exec "$V/bin/gosym" -prop "$P" -tier "$T" -verif "$V" -repo /repo "$@"
