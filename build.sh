#!/bin/bash
# Builds the verifier from its sources (offline).
set -e
cd "$(dirname "$0")/gvc"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/gvc .
