#!/bin/bash
# Warms the build cache; every check builds for itself again.
cd "$(dirname "$0")" || exit 1
here=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
. "$here/build.sh"
for p in C01 C14 C19; do
	s=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 1
	build_harness "$s" "${VERIF_REPO:-/repo}" $p || exit 1
	rm -rf "$s"
done
echo ready
