#!/bin/bash
# Builds the analyser into /verif/build (offline, vendored dependencies).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
bin="$here/build/gmv"
if [ -x "$bin" ] && [ -z "$(find "$here/analyzer" -newer "$bin" -name '*.go' -print -quit)" ]; then
	exit 0
fi
mkdir -p "$here/build"
cd "$here/analyzer" || exit 1
export GOFLAGS=-mod=vendor CGO_ENABLED=0 GOTOOLCHAIN=local GOWORK=off
go build -o "$bin.new.$$" . && mv "$bin.new.$$" "$bin"
