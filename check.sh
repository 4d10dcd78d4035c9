#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the analyzer (offline) and decides the property on /repo's current source
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
mkdir -p "$here/bin" "$here/evidence"
( cd "$here/analyzer" && go build -o "$here/bin/analyzer" . ) || exit 2
[ "$1" = build ] && exit 0
exec "$here/bin/analyzer" -prop "$1" -tier "${2:-quick}" -verif "$here"
