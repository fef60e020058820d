#!/bin/bash
# usage: check.sh PROPERTY  (builds the analyser, then decides the property on /repo's current source)
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p "$here/evidence"
bin="$here/tool/bin/goavcheck"
mkdir -p "$here/tool/bin"
(cd "$here/tool" && go build -mod=vendor -o "$bin" .) || { echo "the analyser does not build"; exit 2; }
exec "$bin" -property "$1"
