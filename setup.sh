#!/bin/bash
# Warms the Go build cache: builds the instrumenter and the monitors, without
# and with the race detector, and the command once.
cd "$(dirname "$0")" || exit 1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d /tmp/vmon.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cd harness || exit 1
go run ./instr -repo /repo -mode step -out "$tmp/ov" -extra "" && go build -overlay "$tmp/ov/overlay.json" -o "$tmp/vmon" . || exit 1
go run ./instr -repo /repo -mode race -out "$tmp/ovr" -extra "" && CGO_ENABLED=1 go build -race -overlay "$tmp/ovr/overlay.json" -o "$tmp/vmonr" . || exit 1
(cd /repo && go build -o "$tmp/vimlparser" ./cmd/vimlparser)
