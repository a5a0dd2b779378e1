#!/bin/bash
# Builds the explorer once, which fills the Go build cache. Every check builds
# again against /repo's working tree and needs nothing from here.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd) || exit 2
tmp=$(mktemp -d /tmp/verif-mc.XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/mc" || exit 2
cp go.mod go.sum "$tmp/" || exit 2
go build -modfile="$tmp/go.mod" -o "$tmp/mc" . || exit 2
GOARCH=386 go build -modfile="$tmp/go.mod" -o "$tmp/mc32" . || true
