#!/bin/bash
# check.sh <ID> <quick|thorough> | check.sh replay <file>: builds the harness against /repo's current tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. "$VERIF_DIR/env.sh"
BIN=$(mktemp -d /tmp/vhbin.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
mkdir -p evidence
cd harness || exit 2
go build -o "$BIN/vh" ./cmd/vh || { echo "harness does not build" >&2; exit 2; }
cd "$VERIF_DIR" || exit 2
"$BIN/vh" "$@"
