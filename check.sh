#!/bin/bash
# check.sh ID: decides one property on /repo's working tree (VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
(cd harness && go build -o "$d/yv" .) || exit 2
"$d/yv" check "$@"
exit $?
