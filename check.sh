#!/bin/bash
# usage: check.sh <property> ; VERIF_TIER, VERIF_SEED from the environment
cd "$(dirname "$0")" || exit 2
V=$PWD
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off
export GOPATH=${GOPATH:-/root/go}
B=$V/bin
mkdir -p "$B" "$V/evidence" || exit 2
(
  flock 9
  if [ ! -x "$B/govc" ] || [ -n "$(find "$V/engine" -newer "$B/govc" \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; then
    (cd "$V/engine" && go build -o "$B/govc.$$" . && mv "$B/govc.$$" "$B/govc") || exit 2
  fi
) 9>"$B/.lock" || exit 2
[ "$1" = "--build" ] && exit 0
exec "$B/govc" check -repo /repo -verif "$V" -prop "$1"
