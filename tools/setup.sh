#!/bin/bash
# warms the go build cache for every check (plain and race builds); offline
cd "$(dirname "$0")/../harness" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on GOSUMDB=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build PATH=/usr/local/go/bin:$PATH
go build ./... && go vet ./vk >/dev/null 2>&1
for p in props/*/; do
  r=""; [ -e "$p/RACE" ] && r="-race"
  go test -vet=off $r -c -o /dev/null "./$p" || exit 1
done
exit 0
