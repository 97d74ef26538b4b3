#!/bin/bash
# bash run.sh ID TIER [harness flags]: builds the harness against /repo's working tree
# and runs the monitor deciding property ID. Exit 0: held; 1: violation; else: error.
ID=${1:?property}; TIER=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB='*' GOFLAGS=-mod=mod
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_SEED=${VERIF_SEED:-1}
unset THEMA_FORCEVERIFY
S=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'chmod -R u+w "$S" 2>/dev/null; rm -rf "$S"' EXIT
export VERIF_SCRATCH=$S TMPDIR=$S
cd "$VERIF_DIR/harness" || exit 2
RACE=
grep -q "^$ID\$" "$VERIF_DIR/harness/race_checks.txt" && RACE=-race
go build $RACE -o "$S/h" . || { echo "the harness does not build"; exit 2; }
case $ID in
P26|P27|P30) (cd /repo && go build -o "$S/thema" ./cmd/thema) || { echo "the CLI does not build"; exit 2; } ;;
esac
export VERIF_CLI=$S/thema
"$S/h" -tier "$TIER" "$@" "$ID"
