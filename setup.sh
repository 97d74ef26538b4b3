#!/bin/bash
# Warms the Go build cache: both variants of the harness and the CLI.
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/verif.XXXXXX) || exit 1
trap 'rm -rf "$S"' EXIT
cd "$D/harness" && go build -o "$S/h" . && go build -race -o "$S/hr" . && cd /repo && go build -o "$S/thema" ./cmd/thema && mkdir -p "$D/evidence"
