#!/bin/bash
# Builds the verification condition generator and the harness once, to show that they build.
set -e
cd "$(dirname "$0")/.."
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
d=$(mktemp -d)
(cd gvc && go build -o "$d/gvc" .)
(cd harness && go build -o "$d/vh" .)
rm -rf "$d"
