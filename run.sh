#!/bin/sh
# Builds the driver and runs it: run.sh check C01 | replay FILE | selftest | build
dir=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
mkdir -p "$dir/.build"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off
tmp="$dir/.build/orch.$$"
(cd "$dir/orch" && CGO_ENABLED=0 go build -o "$tmp" .) || { rm -f "$tmp"; echo "building the driver failed" >&2; exit 2; }
mv -f "$tmp" "$dir/.build/orch"
exec "$dir/.build/orch" "$@"
