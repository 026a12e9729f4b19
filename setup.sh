#!/bin/bash
# Builds the symbolic execution engine (offline; sources in gosym/, x/tools from the module cache).
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOTELEMETRY=off
unset GOROOT
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
mkdir -p bin out evidence
(cd gosym && go build -o ../bin/gosym.tmp.$$ . && mv ../bin/gosym.tmp.$$ ../bin/gosym)
