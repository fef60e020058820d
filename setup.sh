#!/bin/bash
# builds the analyser once
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p "$here/tool/bin" "$here/evidence"
cd "$here/tool" && go build -mod=vendor -o "$here/tool/bin/goavcheck" .
