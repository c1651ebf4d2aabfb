#!/bin/bash
# bash run.sh <property> <quick|thorough> [-replay FILE]
# Builds the checker against /repo's working tree and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}; shift; shift || true
unset GOROOT
export HOME=/root
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
repo=${VERIF_REPO:-/repo}
base=/dev/shm
[ -w "$base" ] || base=${TMPDIR:-/tmp}
scratch=$(mktemp -d "$base/vmc.XXXXXX") || exit 2
trap 'rm -rf -- "$scratch"' EXIT
mkdir -p "$scratch/ov" "$scratch/run"
( cd "$here/mc/gen" && GOFLAGS= go build -o "$scratch/gen" . ) || { echo "gen build failed" >&2; exit 2; }
mode=
flags=()
if [ "$id" = C34 ]; then
  # The race detector watches the repository's own code. The scheduler and the
  # database engine stay out of its sight, so that only the repository's locks
  # order its accesses.
  export CGO_ENABLED=1
  export GORACE="log_path=$scratch/run/race halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3"
  flags=(-race '-gcflags=modernc.org/...=-race=false' '-gcflags=github.com/liliang-cn/cortexdb/v2/internal/vmc/...=-race=false')
fi
build() {
  rm -rf -- "$scratch/ov"; mkdir -p "$scratch/ov"
  "$scratch/gen" -repo "$repo" -mc "$here/mc" -out "$scratch/ov" $mode || return 1
  ( cd "$repo" && go build -overlay "$scratch/ov/overlay.json" "${flags[@]}" -o "$scratch/vmc" ./internal/vmc/cmd ) || return 1
}
if ! build; then
  echo "instrumented build failed; trying the plain one" >&2
  mode=-plain
  build || { echo "build failed" >&2; exit 2; }
fi
"$scratch/vmc" -check "$id" -tier "$tier" -verif "$here" -scratch "$scratch/run" "$@"
rc=$?
exit $rc
