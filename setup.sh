#!/bin/bash
# Builds the verifier from the committed sources, offline.
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export GOENV=off GO111MODULE=on GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS=
mkdir -p evidence
cd govc && go build -o govc .
