#!/bin/bash
# Builds the analyser once; every check builds it again if needed.
set -eu
cd "$(dirname "$0")"
: "${HOME:=/root}"
export HOME GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off CGO_ENABLED=0
mkdir -p bin evidence
cd artcheck && go build -o ../bin/artcheck .
