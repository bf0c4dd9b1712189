#!/bin/sh
# Builds the engine (offline) into /verif/.build, which git ignores.
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
(cd engine && go build -o ../.build/engine .)
# warms the build cache of the replay program; a tree that does not build is
# reported by the checks
(cd harness && go build -tags ne -o /dev/null ./cmd/replay) || true
(cd harness && CGO_ENABLED=1 go build -race -tags ne -o /dev/null ./cmd/replay) >/dev/null 2>&1 || true
