#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyser from /verif/artcheck and decides one property of the
# source currently in /repo.
set -u
cd "$(dirname "$0")" || exit 2
: "${HOME:=/root}"
export HOME GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off CGO_ENABLED=0
mkdir -p bin evidence
(cd artcheck && go build -o ../bin/artcheck .) || exit 2
exec ./bin/artcheck -repo /repo -verif "$PWD" -tier "${2:-${VERIF_TIER:-quick}}" "$1"
