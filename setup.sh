#!/bin/bash
# Compiles the analyzer once, which fills the build cache; run.sh builds it anew
# from the sources.
set -e
cd "$(dirname "$0")/analyzer"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o /dev/null .
