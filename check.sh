#!/bin/bash
# check.sh Cxx : decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
V=$PWD
export HOME=${HOME:-/root} GOPROXY=off GOWORK=off GOTOOLCHAIN=local
BIN=$V/bin/gov
if [ ! -x "$BIN" ] || [ -n "$(find gov -name '*.go' -newer "$BIN" -print -quit)" ]; then
  mkdir -p bin && (cd gov && GOFLAGS= go build -o "$BIN" .) || exit 3
fi
exec "$BIN" -check "$1" -repo /repo -contracts "$V/contracts" -verif "$V"
