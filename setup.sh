#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin
cd engine
GOFLAGS=-mod=vendor GO111MODULE=on go build -o ../bin/gosym.tmp$$ .
mv ../bin/gosym.tmp$$ ../bin/gosym
