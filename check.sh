#!/bin/bash
# usage: check.sh <property> [quick|thorough]     (run in /verif)
# Builds the engine from /verif/engine, loads the current tree of /repo and decides the property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=readonly GOSUMDB=off
bin=$(mktemp -d) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/engine" && CGO_ENABLED=0 go build -o "$bin/symx" .) || exit 2
if [ "$1" = setup ]; then "$bin/symx" -compile -verif "$here"; exit $?; fi
if [ "$1" = replay ]; then "$bin/symx" -replay "$2" -verif "$here"; exit $?; fi
"$bin/symx" -check "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$here"
