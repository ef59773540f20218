#!/bin/bash
# builds /verif/bin/analyzer from /verif/analyzer (standard library only, offline)
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/bin/analyzer
if [ -x "$bin" ] && [ -z "$(find "$here/analyzer" -newer "$bin" \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then
	exit 0
fi
mkdir -p "$here/bin"
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
tmp=$bin.$$
cd "$here/analyzer" && /usr/local/bin/go1.23 build -o "$tmp" . && mv -f "$tmp" "$bin"
rc=$?
rm -f "$tmp"
exit $rc
