#!/bin/bash
# Builds the verifier from the committed sources (offline).
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOSUMDB=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p build evidence replay
cd gocv && go build -o ../build/gocv ./cmd/gocv
