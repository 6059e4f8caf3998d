#!/bin/bash
# check.sh PROPERTY TIER: verifies the contracts of one property on /repo's working tree
cd "$(dirname "$0")/.." || exit 1
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
[ -x bin/gocv ] || bash tools/setup.sh || exit 1
exec bin/gocv check --prop "$1" --tier "${2:-quick}"
