#!/bin/bash
# Builds the harness once (plain and race), which warms the Go build cache.
cd "$(dirname "$0")/../harness" || exit 1
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d /tmp/vksetup.XXXXXX) || exit 1
trap 'rm -rf "$t"' EXIT
go build -o "$t/vk" ./cmd/vk && go build -race -o "$t/vkrace" ./cmd/vk
