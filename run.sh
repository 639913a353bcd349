#!/bin/bash
# run.sh check ID      build from /repo's working tree and decide one property
# run.sh replay FILE   re-run the failing case of a replay file
# run.sh setup         warm the build caches
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
export HOME=${HOME:-/root}
export PATH=$PATH:/usr/local/bin:/usr/local/go/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export LANG=C.UTF-8
unset LC_ALL LC_CTYPE RUNEWIDTH_EASTASIAN GORACE GODEBUG
work=$(mktemp -d "${TMPDIR:-/tmp}/verifmc.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
# the module file is copied, so the committed one is never rewritten
cp "$root/harness/go.mod" "$work/go.mod" && cp "$root/harness/go.sum" "$work/go.sum" || exit 2
cd "$root/harness" || exit 2

build_mc() { go build -modfile="$work/go.mod" -o "$work/mc" ./mc || { echo "harness does not build" >&2; exit 2; }; }
build_conc() {
  go build -modfile="$work/go.mod" -o "$work/instrument" ./instrument || exit 2
  "$work/instrument" "$work" || { echo "instrumentation failed" >&2; exit 2; }
  go build -race -modfile="$work/go.mod" -overlay "$work/overlay.json" -o "$work/conc" ./conc || { echo "concurrency harness does not build" >&2; exit 2; }
}

case "${1:-}" in
check)
  if [ "$2" = C15 ]; then build_conc; "$work/conc" check; exit $?; fi
  build_mc
  if [ "$2" = C22 ]; then "$work/mc" platbuild "$work" || exit 2; fi
  "$work/mc" check "$2"; exit $? ;;
replay)
  if grep -q '"property": "C15"' "$2"; then build_conc; "$work/conc" replay "$2"; exit $?; fi
  build_mc
  if grep -q '"property": "C22"' "$2"; then "$work/mc" platbuild "$work" || exit 2; fi
  "$work/mc" replay "$2"; exit $? ;;
setup)
  build_mc; build_conc; exit 0 ;;
*) echo "usage: run.sh check ID | replay FILE | setup" >&2; exit 2 ;;
esac
