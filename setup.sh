#!/bin/bash
# Checks that the toolchain can build the monitor, offline. Every check builds what it runs from /repo's current tree.
set -eu
cd "$(dirname "$0")/harness"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOWORK=off GOPROXY=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
go version
go build -o /dev/null .
