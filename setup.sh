#!/bin/bash
# Builds the checker from the committed sources, offline.
cd "$(dirname "$0")/checker" || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1
mkdir -p ../bin
go build -o ../bin/checker.tmp . && mv ../bin/checker.tmp ../bin/checker
