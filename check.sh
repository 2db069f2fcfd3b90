#!/bin/bash
# check.sh PROPERTY [run flags]      decides one property on /repo's working tree
# check.sh replay FILE               replays a violation
# check.sh selftest [PROPERTY...]    determinism self-test
# check.sh build DIR                 builds only
set -u
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=readonly GO111MODULE=on CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${SIM_GOCACHE:-/root/.cache/go-build}
verif=$(cd "$(dirname "$0")" && pwd)
die() { echo "check.sh: $*" >&2; exit 2; }
build() { # build DIR
	mkdir -p "$1/inst" || return 2
	(cd "$verif/sim" && go build -o "$1/instr" ./instr) || return 2
	rm -rf "$1/inst/src"
	if ! "$1/instr" -repo /repo -out "$1/inst" >"$1/instr.log" 2>&1; then
		head -3 "$1/instr.log" >&2
		"$1/instr" -repo /repo -out "$1/inst" -coarse "the library cannot be instrumented" >>"$1/instr.log" 2>&1 || return 2
	fi
	if ! (cd "$verif/sim" && go build -overlay "$1/inst/overlay.json" -o "$1/simcheck" ./simcheck) 2>"$1/build.log"; then
		# The instrumented library does not compile: run it as it is.
		"$1/instr" -repo /repo -out "$1/inst" -coarse "the instrumented library does not compile" >>"$1/instr.log" 2>&1 || { cat "$1/build.log" >&2; return 2; }
		(cd "$verif/sim" && go build -overlay "$1/inst/overlay.json" -o "$1/simcheck" ./simcheck) || return 2
		echo "note: the instrumented library does not compile; running without yields" >&2
		head -5 "$1/build.log" >&2
	fi
	cp "$1/inst/sites.json" "$1/sites.json"
}
what=${1:?property}
shift
case $what in
build)
	case $1 in /*) dir=$1 ;; *) dir=$PWD/$1 ;; esac
	build "$dir" || die "build failed"
	exit 0 ;;
replay)
	dir=$(mktemp -d) || die mktemp
	build "$dir" || die "build failed"
	"$dir/simcheck" replay "$1"
	rc=$?
	rm -rf "$dir"
	exit $rc ;;
selftest)
	dir=$verif/.build/selftest
	build "$dir" || die "build failed"
	exec "$dir/simcheck" selftest "$@" ;;
C*)
	dir=$verif/.build/$what
	build "$dir" || die "build failed"
	exec "$dir/simcheck" run -prop "$what" -verif "$verif" -seed "${VERIF_SEED:-1}" -tier "${VERIF_TIER:-quick}" "$@" ;;
*)
	die "unknown: $what" ;;
esac
