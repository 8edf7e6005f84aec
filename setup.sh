#!/bin/bash
# Checks that the framework builds and that every specification parses.
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off CGO_ENABLED=0 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
(cd driver && go build -o "$tmp/driver" .)
cd spec
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > "$tmp/sany" 2>&1 || { cat "$tmp/sany"; exit 1; }
done
echo ok
