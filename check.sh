#!/bin/bash
# check.sh <property> [quick|thorough] [--replay FILE]: builds the harness
# against /repo's working tree and runs one check.
# exit 0 held, 1 violated (VIOLATION line), anything else: no verdict.
cd "$(dirname "$0")" || exit 2
root=$PWD
id=$1; shift
case "$1" in quick|thorough) export VERIF_TIER=$1; shift;; esac
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_ROOT=$root VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
tmp=$(mktemp -d /tmp/vkrun.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
race=
case "$id" in C17) race=-race; export GORACE="halt_on_error=0 exitcode=0 log_path=$tmp/race.log" VERIF_RACE_LOG=$tmp/race.log;; esac
(cd harness && go build $race -o "$tmp/vk" ./cmd/vk) || { echo "INCONCLUSIVE: harness does not build against /repo"; exit 2; }
export VERIF_BIN=$tmp/vk TMPDIR=$tmp
ulimit -v 28000000 2>/dev/null
[ -n "$race" ] && ulimit -v unlimited 2>/dev/null
timeout -k 5 ${VERIF_TIMEOUT:-1700} "$tmp/vk" "$id" "$@" >"$tmp/out" 2>"$tmp/err"
rc=$?
cat "$tmp/out"
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  tail -c 3000 "$tmp/err" >&2
  # the Go runtime ended the process: an unrecoverable failure of the code under test
  if grep -qE '^(fatal error: (stack overflow|concurrent map|all goroutines are asleep)|runtime: goroutine stack exceeds|panic: )' "$tmp/err"; then
    mkdir -p "$root/replay"; cp "$tmp/err" "$root/replay/$id-crash.txt"
    echo "VIOLATION property=$id replay=$root/replay/$id-crash.txt"
    exit 1
  fi
fi
exit $rc
