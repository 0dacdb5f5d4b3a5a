#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
env -u GOFLAGS GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor go build -o ../bin/vsym .
