#!/bin/bash
# Rebuilds the tools of /repo's working tree on top of the simulated kernel and
# runs one check.
#   check.sh C01            run the check of a property (VERIF_TIER, VERIF_SEED)
#   check.sh replay FILE    execute a replay file
#   check.sh selftest [ID]  execute jobs several times and compare the executions
#   check.sh setup          build everything once, to show that it builds
# REPO=/path checks another tree instead of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
cache=$here/.cache
mkdir -p "$cache"
export GOCACHE=$cache/go GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0 GOWORK=off
unset GOOS GOARCH GOEXPERIMENT GODEBUG GOMAXPROCS 2>/dev/null
work=$(mktemp -d "$cache/run.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT
build() {
	python3 "$here/overlay/gen.py" "$cache/overlay" &&
		(cd "$here/sim" && go build -buildvcs=false -overlay "$cache/overlay/overlay.json" -o "$work/sim" .) &&
		"$work/sim" instr "$repo" "$cache/overlay/overlay.json" "$work/instr" || return
	# tools that start goroutines get a scheduling point before every statement
	ov=$cache/overlay
	test -e "$work/instr/goroutines" && ov=$work/instr && touch "$work/goroutines"
	(cd "$repo" && go build -buildvcs=false -trimpath -tags verif -overlay "$ov/overlay.json" -o "$work/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep) || return
	$web || return 0
	# and so does csweb, where requests run concurrently
	(cd "$repo" && go build -buildvcs=false -tags verif -overlay "$work/instr/overlay.json" -trimpath -o "$work/" ./cmd/csweb)
}
case "${1:-}" in
C12 | C13 | C34 | replay | selftest | setup) web=true ;;
*) web=false ;;
esac
build >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "check.sh: build failed"; exit 3; }
sim() { "$work/sim" -bins "$work" -out "$here" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@"; }
case "${1:-}" in
setup) echo "built"; exit 0 ;;
replay) sim replay "$2" ;;
selftest) sim selftest "${2:-all}" ;;
C*) id=$1; shift; sim "$@" check "$id" ;;
*) echo "usage: check.sh ID | replay FILE | selftest [ID] | setup"; exit 3 ;;
esac
