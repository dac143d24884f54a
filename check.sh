#!/bin/bash
# usage: check.sh <property> <quick|thorough>
# Builds the engine from /verif/gosym if needed and decides the property on
# /repo's current working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
bin="$here/bin/gosym"
go=$(command -v go || echo /opt/veriftools/go1.27.3/bin/go)
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local GOWORK=off
sum=$(cd "$here/gosym" && cat *.go go.mod | sha256sum | cut -c1-16)
if [ ! -x "$bin-$sum" ]; then
	mkdir -p "$here/bin"
	tmp=$(mktemp -d)
	if ! (cd "$here/gosym" && "$go" build -o "$tmp/gosym" .); then
		echo "engine does not build" >&2
		exit 2
	fi
	mv "$tmp/gosym" "$bin-$sum"
	rm -rf "$tmp"
fi
[ "$prop" = --build ] && exit 0
exec "$bin-$sum" -repo "${GOSYM_REPO:-/repo}" -verif "$here" -prop "$prop" -tier "$tier"
