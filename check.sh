#!/bin/bash
# usage: ./check.sh ID [-case N]     (VERIF_TIER=quick|thorough)
# Builds the harness against /repo's current working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR="$here"
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOGC=200
tmp=$(mktemp -d /tmp/verif-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
export VERIF_TMP="$tmp" TMPDIR="$tmp"
if ! (cd "$here/mc" && go build -o "$tmp/mc" .) >"$tmp/build.log" 2>&1; then
  echo "the harness does not build against /repo:" >&2
  cat "$tmp/build.log" >&2
  exit 2
fi
"$tmp/mc" "$@"
code=$?
exit $code
