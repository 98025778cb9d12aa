#!/bin/bash
# check.sh ID [quick|thorough]   decide one property on the code in $REPO (default /repo)
# check.sh replay FILE           re-execute a recorded counterexample
# check.sh build OUT             only build the checker
# check.sh setup                 build everything once, to warm the build cache
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOMODCACHE="$GOPATH/pkg/mod"
export VMC_ROOT="${VMC_ROOT:-$VERIF}"
unset GODEBUG
T="$(mktemp -d /tmp/vmc.XXXXXX)" || exit 3
trap 'rm -rf "$T"' EXIT
sed "s#=> /repo#=> $REPO#" "$VERIF/go.mod" > "$T/go.mod"
cp "$VERIF/go.sum" "$T/go.sum"
# build PKG OUT [go build flags]
build() {
	local pkg="$1" out="$2"; shift 2
	(cd "$VERIF" && go build -modfile="$T/go.mod" "$@" -o "$out" "$pkg") || { echo "check.sh: build failed" >&2; exit 3; }
}
# overlay [-points]: the library with the order of loops over Go maps under
# control and, with -points, scheduling points before every statement
overlay() {
	build ./cmd/instr "$T/instr"
	mkdir -p "$T/instrumented"
	(cd "$VERIF" && go list -modfile="$T/go.mod" -export -deps -json=ImportPath,Dir,Export,GoFiles github.com/zyedidia/generic/...) > "$T/list" &&
		"$T/instr" "$@" "$REPO" "$T/instrumented" < "$T/list" >&2
}
# the checker for properties of code that loops over Go maps
mapbuild() {
	if overlay && (cd "$VERIF" && go build -modfile="$T/go.mod" -overlay "$T/instrumented/overlay.json" -o "$1" ./cmd/vmc); then
		return
	fi
	echo "check.sh: instrumented build failed, map orders are left to the runtime" >&2
	build ./cmd/vmc "$1"
}
# the checker for the properties about goroutines: with scheduling points, under
# the race detector
concbuild() {
	export CGO_ENABLED=1 GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
	if overlay -points && (cd "$VERIF" && go build -modfile="$T/go.mod" -race -overlay "$T/instrumented/overlay.json" -o "$1" ./cmd/vmc); then
		return
	fi
	echo "check.sh: instrumented build failed, scheduling points are missing" >&2
	build ./cmd/vmc "$1" -race
}
# the checker for property $1
checker() {
	case "$1" in
	K01 | K02 | K03) concbuild "$2" ;;
	S01 | S02 | S03 | B01 | X01 | V01 | N01 | N02) mapbuild "$2" ;;
	*) build ./cmd/vmc "$2" ;;
	esac
}
case "${1:-}" in
"") echo "usage: check.sh ID [quick|thorough] | replay FILE | build OUT | setup" >&2; exit 3 ;;
build) build ./cmd/vmc "$2"; exit 0 ;;
setup) build ./cmd/vmc "$T/vmc"; mapbuild "$T/vmc-maps"; concbuild "$T/vmc-race"; exit 0 ;;
replay)
	checker "$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)" "$T/vmc"
	"$T/vmc" replay "$2"; exit $? ;;
esac
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
checker "$1" "$T/vmc"
"$T/vmc" check "$1"
exit $?
