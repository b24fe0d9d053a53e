#!/bin/bash
# usage: run.sh setup | run.sh <property>
# Builds the analyzer from /verif/analyzer when needed and decides one property
# on /repo's current working tree.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${VERIF_REPO:-/repo}"
goroot=/opt/veriftools/go1.23.12
export GOROOT="$goroot" PATH="$goroot/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export HOME="${HOME:-/root}"
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
bin="$here/analyzer/bin/analyzer"
stamp="$here/analyzer/bin/stamp"
want="$(cd "$here/analyzer" && cat *.go go.mod | sha256sum)"
if [ ! -x "$bin" ] || [ "$(cat "$stamp" 2>/dev/null)" != "$want" ]; then
	mkdir -p "$here/analyzer/bin"
	(cd "$here/analyzer" && GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o "$bin.$$" .) || { echo "building the analyzer failed"; exit 2; }
	mv "$bin.$$" "$bin"
	printf '%s' "$want" >"$stamp"
fi
[ "${1:-}" = setup ] && exit 0
exec "$bin" check "$1" "$repo" "$here"
