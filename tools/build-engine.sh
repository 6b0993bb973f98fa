#!/bin/bash
# Builds the checker from the committed sources (offline).
set -e
cd "$(dirname "$0")/../engine"
export GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local CGO_ENABLED=0 HOME="${HOME:-/root}"
out="${1:-../bin/verif}"
mkdir -p "$(dirname "$out")"
go build -o "$out" .
