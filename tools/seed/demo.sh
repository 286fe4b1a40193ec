#!/bin/bash
# Runs the demonstration beside this script against the working directory's zanzi; exit 0: behaves, nonzero: broken.
d=$(cd "$(dirname "$0")" && pwd) || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
s=$(mktemp -d) || exit 3
trap 'rm -rf "$s"' EXIT
cp go.mod go.sum "$s/" || exit 3
sep=""
{
	echo '{"Replace": {'
	for f in "$d"/*.go; do
		printf '%s"%s/zz_demo/%s": "%s"\n' "$sep" "$PWD" "$(basename "$f")" "$f"
		sep=","
	done
	echo '}}'
} > "$s/overlay.json"
go build -modfile="$s/go.mod" -overlay="$s/overlay.json" -o "$s/demo" ./zz_demo || exit 3
mkdir "$s/work" && cd "$s/work" && timeout 120 "$s/demo"
