#!/bin/bash
# check.sh <property> [--replay FILE]: builds the harness together with /repo's working tree and runs one check.
# Tier: VERIF_TIER (quick, thorough). Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: environment error.
cd "$(dirname "$0")" || exit 2
here=$PWD
prop=${1:?property}
shift
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export HOME=${HOME:-/root}
repo=${VERIF_REPO:-/repo}
scratch=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
# shellcheck source=build.sh
. "$here/build.sh"
build_harness "$scratch" "$repo" "$prop" || { echo "build failed"; exit 2; }
args=(-prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -evidence "$here/evidence" -scratch "$scratch")
[ -n "$VERIF_BUDGET" ] && args+=(-budget "$VERIF_BUDGET")
[ "$instrumented" = 1 ] && args+=(-inst)
if [ "$1" = --replay ]; then args+=(-replay "$2"); fi
"$scratch/vh" "${args[@]}"
rc=$?
exit $rc
