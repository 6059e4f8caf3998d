#!/bin/bash
# builds the verifier from the committed sources
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cd "$(dirname "$0")/../gocv" && mkdir -p ../bin && go build -o ../bin/gocv . 
