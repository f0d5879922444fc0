#!/bin/bash
# Builds the harness once, which checks that everything needed is here and warms
# the Go build cache where that is shared.
cd "$(dirname "$0")" || exit 2
. ./env.sh
d=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
build "$d/mc" ./cmd/mc
