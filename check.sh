#!/bin/bash
# check.sh PROPERTY: builds the explorer against /repo's working tree and
# decides one property. Exit 0: held on everything explored. Exit 1 and a
# VIOLATION line: broken. Anything else: the check itself could not run.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTRACEBACK=all
here=$(cd "$(dirname "$0")" && pwd) || exit 2
id=${1:?usage: check.sh PROPERTY}
tmp=$(mktemp -d /tmp/verif-mc.XXXXXXXX) || exit 2
child=
trap 'rm -rf "$tmp"' EXIT
trap 'test -n "$child" && kill -TERM -- "-$child" 2>/dev/null; exit 2' INT TERM
cd "$here/mc" || exit 2
# the committed go.mod and go.sum stay as they are, whatever go does to them
cp go.mod go.sum "$tmp/" || exit 2
# only for trying planted bugs on a scratch copy; the default is /repo itself
if [ -n "$VERIF_REPO" ]; then sed -i "s|=> /repo$|=> $VERIF_REPO|" "$tmp/go.mod" || exit 2; fi
go build -modfile="$tmp/go.mod" -o "$tmp/mc" . || { echo "build failed"; exit 2; }
export VERIF_TMP=$tmp VERIF_MC=$here/mc VERIF_EVIDENCE=${VERIF_EVIDENCE:-$here/evidence}
"$tmp/mc" "$id"
