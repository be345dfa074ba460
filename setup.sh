#!/bin/bash
# Warms the Go build cache and checks that the tools are there. The checks build everything they need themselves.
set -e
cd "$(dirname "$0")"
W=$(mktemp -d)
cp -r harness "$W/harness"
(cd "$W/harness" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=0 go build -o "$W/h" .)
rm -rf "$W"
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
mkdir -p evidence
echo ok
