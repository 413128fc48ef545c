#!/bin/bash
# Warms the build cache; every check builds what it runs itself.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin:/usr/local/go/bin:$PATH
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off
work=$(mktemp -d /tmp/vmon.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 2
cd "$here/harness" || exit 2
go build -modfile="$work/go.mod" -o "$work/vmon" . &&
	go build -modfile="$work/go.mod" -race -o "$work/vmon-race" . &&
	go build -modfile="$work/go.mod" -o "$work/cddlc" github.com/HannesKimara/cddlc/cmd/cddlc
