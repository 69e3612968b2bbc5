#!/bin/bash
# builds govc if needed and runs it
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
d="$(cd "$(dirname "$0")" && pwd)"
bin="$d/.bin/govc"
if [ ! -x "$bin" ] || [ -n "$(find "$d/govc" -newer "$bin" -name '*.*' -print -quit)" ]; then
  mkdir -p "$d/.bin"
  (cd "$d/govc" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || exit 2
fi
cmd="$1"; shift
exec "$bin" "$cmd" -repo ${REPO:-/repo} -verif "$d" "$@"
