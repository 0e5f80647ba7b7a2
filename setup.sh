#!/bin/bash
# Nothing needs to be prepared: every check builds what it needs.  This makes
# sure that the tools are there, and warms the Go build cache.
set -e
cd "$(dirname "$0")"
. ./env.sh
command -v tlc java go python3 > /dev/null
t=$(mktemp -d)
cp harness/go.mod harness/go.sum "$t/"
(cd harness && go build -modfile "$t/go.mod" -o "$t/vh" ./cmd/vh)
rm -rf "$t"
echo ok
