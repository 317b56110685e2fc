#!/bin/bash
# check.sh <property> [quick|thorough]: builds the checker (if needed) and runs one check.
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$dir"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1
export GOPATH="${GOPATH:-/root/go}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$dir/bin"
(cd "$dir/checker" && go build -o "$dir/bin/gopfcheck" .) || exit 3
[ "${1:-}" = build ] && exit 0
exec "$dir/bin/gopfcheck" check "$1" "${2:-quick}"
