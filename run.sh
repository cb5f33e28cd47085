#!/bin/bash
# usage: run.sh <property id>   (VERIF_SEED, VERIF_TIER from the environment)
# Rebuilds everything it needs from /repo's working tree and decides one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here" GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
( cd "$here/harness" && go build -mod=readonly -o "$bin/vh" ./cmd/vh ) || exit 2
"$bin/vh" "$1"
