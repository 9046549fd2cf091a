#!/bin/bash
# Warms the build cache (offline): compiles the monitors with and without the race detector against /repo.
verif=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
work=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 1
trap 'rm -rf "$work"' EXIT
cp -r "$verif/harness" "$work/harness" || exit 1
cd "$work/harness" && go build -o "$work/verif" . && go build -race -o "$work/verif-race" .
