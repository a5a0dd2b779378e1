#!/bin/bash
# replay.sh ARTEFACT: plays a counterexample again, against /repo's working
# tree. ARTEFACT is the file a VIOLATION line names: a Go test, or data (a
# history, an order of steps, a schedule, the plan of a stream, an input).
# For a file that cannot be played, it shows it and runs the check again.
# Exit 0: the property holds now. Exit 1: it is broken.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d /tmp/verif-replay.XXXXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
case $1 in
*.go)
	f=$(realpath "$1") || exit 2
	printf '{"Replace": {"%s/zz_replay/replay_test.go": "%s"}}' "$repo" "$f" > "$tmp/overlay.json"
	cp "$repo/go.mod" "$tmp/go.mod"; cp "$repo/go.sum" "$tmp/go.sum"
	race=; case $f in *X02*) race=-race;; esac
	cd "$repo" && go test -c $race -vet=off -overlay "$tmp/overlay.json" -modfile "$tmp/go.mod" -o "$tmp/replay.test" ./zz_replay || exit 2
	"$tmp/replay.test" -test.timeout 600s && exit 0
	exit 1
	;;
*_schedule.json | *_open.json | *_plan.json | *_hist.json | *_input.json | *_mem.json | *_effects.json | -hist)
	case $1 in
	*_schedule.json) set -- -replaysched "$(realpath "$1")";;
	*_open.json) set -- -replayopen "$(realpath "$1")";;
	*_plan.json) set -- -replayplan "$(realpath "$1")";;
	*_hist.json) set -- -replayhist "$(realpath "$1")";;
	*_effects.json) set -- -replayeffects "$(realpath "$1")";;
	*_mem.json) set -- -replaymem "$(realpath "$1")";;
	*_input.json) set -- -replaytotal "$(realpath "$1")";;
	esac
	cd "$here/mc" && cp go.mod go.sum "$tmp/" || exit 2
	sed -i "s|=> /repo$|=> $repo|" "$tmp/go.mod"
	go build -modfile="$tmp/go.mod" -o "$tmp/mc" . || exit 2
	export VERIF_TMP=$tmp VERIF_MC=$here/mc
	"$tmp/mc" "$@"
	;;
*/[A-Z][0-9][0-9].json | */[A-Z][0-9][0-9]_*.txt)
	# no test could be written for it: the check itself runs again
	cat "$1"
	id=$(basename "$1")
	VERIF_EVIDENCE=$tmp/evidence "$here/check.sh" "${id:0:3}"
	;;
*)
	sed -n 2,6p "$0"
	exit 2
	;;
esac
