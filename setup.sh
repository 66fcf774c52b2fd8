#!/bin/bash
# builds the analyzer
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH="$d:$PATH" && break
done
mkdir -p bin
cd analyzer && go build -o ../bin/va.$$ . && mv ../bin/va.$$ ../bin/va
