#!/bin/bash
# run.sh ID [args]: builds the harness against /repo's current working tree and
# runs the check for property ID. VERIF_TIER (quick|thorough) and VERIF_SEED are
# honoured. VERIF_REPO overrides /repo (used only while developing).
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1; shift
bin=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$bin"' EXIT
if ! build "$bin/mc" ./cmd/mc; then
	echo "harness does not build against $REPO" >&2
	exit 2
fi
if [ "$id" = C21 ]; then
	if ! CGO_ENABLED=1 build "$bin/race21" ./cmd/race21 -race || ! build "$bin/instr" ./cmd/instr; then
		echo "harness does not build against $REPO" >&2
		exit 2
	fi
	# Instrumented code, if it can be: code that starts goroutines cannot.
	mkdir "$bin/src"
	for opt in "" -nosync; do
		how=$("$bin/instr" $opt "$REPO" "$bin/src" "$bin/src/overlay.json" "$PWD/freetype.mod" 2>&1)
		[ $? = 0 ] && [ "$how" = "" ] || continue
		OVERLAY=$bin/src/overlay.json build "$bin/mc21" ./cmd/mc21 2>"$bin/mc21.log" && break
	done
fi
VERIF_DIR=$PWD VERIF_BIN_DIR=$bin "$bin/mc" "$id" "$@"
