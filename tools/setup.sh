#!/bin/bash
# Builds the harness once (this also warms Go's build cache) and parses the specifications.
set -e
cd "$(dirname "$0")/.."
export HOME=${HOME:-/root} GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
(cd harness && go build -o "$out/harness" ./cmd/harness)
(cd harness && GOARCH=386 CGO_ENABLED=0 go build -o "$out/narrow" ./cmd/harness)
(cd harness && go build -race -o "$out/race" ./cmd/harness && go build -o "$out/instrument" ./cmd/instrument)
"$out/harness" selftest -out "$out/report.json"
cd spec
for f in *.tla; do
    tla-sany "$f" >"$out/sany" 2>&1 || { cat "$out/sany"; exit 1; }
done
echo "setup done"
