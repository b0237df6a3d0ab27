#!/bin/bash
# Builds the checker.
cd "$(dirname "$0")/checker" || exit 1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
mkdir -p ../bin && go build -o ../bin/gevcheck .
