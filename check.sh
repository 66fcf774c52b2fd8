#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current source
cd "$(dirname "$0")" || exit 2
HERE=$(pwd)
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
new=1
if [ -x bin/va ]; then
  new=$(find analyzer -newer bin/va -name '*.go' | head -1)
fi
if [ -n "$new" ]; then
  bash setup.sh || exit 2
fi
exec "$HERE/bin/va" -repo /repo -verif "$HERE" -prop "$1" -tier "${VERIF_TIER:-quick}"
