#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Builds the checker from its sources and runs one check against /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
tmp=$(mktemp -d "${TMPDIR:-/tmp}/hcbin.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
if ! (cd "$here/checker" && env -u GOFLAGS GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$tmp/hc" .) >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log"
	echo "the checker itself does not build" >&2
	exit 2
fi
HELIUM_VERIF="$here" "$tmp/hc" check "$prop" "$tier"
