#!/bin/bash
# Compiles every check once, which also fills Go's build cache.
cd "$(dirname "$0")/harness" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOENV=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
d=$(mktemp -d)
cp go.mod go.sum "$d"
sed -i "s#=> \.\./shims#=> $(cd .. && pwd)/shims#" "$d/go.mod"
go vet -modfile "$d/go.mod" ./...
[ $? = 0 ] || echo "some check does not build; it will say so itself"
rm -rf "$d"
exit 0
