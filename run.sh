#!/bin/bash
# run.sh <property> [quick|thorough]   run one check against /repo's working tree
# run.sh --replay <file>               run the case of a replay file again
# run.sh --build                       build only
export HOME=/root PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
cd "$(dirname "$0")" || exit 2
root=$PWD
mkdir -p "$GOCACHE" 2>/dev/null
if ! [ -w "$GOCACHE" ]; then
	GOCACHE=$root/.build/gocache
	mkdir -p "$GOCACHE" || exit 2
fi
mkdir -p "$root/.build" || exit 2
out=$(mktemp -d "$root/.build/run.XXXXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT

build() { # $1: extra flag
	(cd "$root/harness" && go build $1 -o "$out/xdverif" .) || { echo "run.sh: build failed" >&2; exit 2; }
}
race() { case $1 in C27) echo -race ;; esac; }

case $1 in
--build)
	build && build -race
	;;
--replay)
	build "$(race "$(sed -n 's/.*"property": "\([A-Z0-9]*\)".*/\1/p' "$2")")"
	"$out/xdverif" -root "$root" -replay "$2"
	;;
*)
	build "$(race "$1")"
	"$out/xdverif" -root "$root" -prop "$1" -tier "${2:-quick}" -seed "${VERIF_SEED:-1}"
	;;
esac
code=$?
exit $code
