#!/bin/bash
# Compiles everything once so that the checks start with a warm build cache.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
cd "$here/harness"
go build -mod=readonly -o /dev/null ./cmd/vh
go vet -mod=readonly ./... >/dev/null 2>&1 || true
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
go test -mod=readonly -c -o "$out/v" ./vdrv
go test -mod=readonly -race -c -o "$out/vr" ./vdrv
cd /repo
go build -o "$out/s" .
go build -race -o "$out/sr" .
go build -o "$out/c" ./test/client
echo setup done
