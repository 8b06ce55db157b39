#!/bin/bash
# run.sh <property>: builds the analyzer from its committed sources and decides
# one property for the current tree of /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif-analyzer.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$here/analyzer" && go build -o "$bin/analyzer" .) || exit 2
"$bin/analyzer" check "$1" "$here/evidence/$1.json"
