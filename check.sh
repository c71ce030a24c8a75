#!/bin/bash
# check.sh <property> <quick|thorough>: verify one property against /repo's working tree
V="$(cd "$(dirname "$0")" && pwd)"
for g in /opt/veriftools/go1.27.3/bin /opt/veriftools/go1.27*/bin; do [ -x "$g/go" ] && export PATH="$g:$PATH" && break; done
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
B="$V/bin/gvc"
mkdir -p "$V/bin" 2>/dev/null
if [ ! -x "$B" ] || [ -n "$(find "$V/gvc" -newer "$B" -name '*.go' -print -quit)" ]; then
  (cd "$V/gvc" && go build -o "$B.$$" . && mv "$B.$$" "$B") || { echo "ERROR cannot build the verifier"; exit 2; }
fi
[ "$1" = "--build" ] && exit 0
export GOFLAGS=-mod=readonly
exec "$B" -repo "${VERIF_REPO:-/repo}" -verif "$V" -check "$1" -tier "${2:-quick}"
