#!/bin/bash
# Builds every check once, which fills the build cache.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness || exit 2
out=$(mktemp -d /tmp/verif-setup.XXXXXX) || exit 2
rc=0
go test -c -o "$out/props.test" ./props && go test -race -c -o "$out/race.test" ./props || rc=2
rm -rf "$out"
exit $rc
