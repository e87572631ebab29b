#!/bin/bash
# Warms nothing that a check depends on: it only proves the harness builds offline.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cd harness && go build -o /dev/null ./cmd/vh && go vet ./core >/dev/null 2>&1
exit 0
