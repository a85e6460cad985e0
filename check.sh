#!/bin/bash
# Usage: check.sh PROPERTY - instruments and builds /repo's working tree, simulates, reports.
# Exit 0: held; 1: VIOLATION line; 2: the check itself could not be completed.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
p=$1
D=$(mktemp -d "${TMPDIR:-/tmp}/fontsim.XXXXXX") || exit 2
trap 'rm -rf "$D"' EXIT
trap 'exit 2' INT TERM
if ! ./sim/build.sh "$D" "$p" >"$D/build.log" 2>&1; then
	cat "$D/build.log"
	echo "error: the simulation of $p could not be built"
	exit 2
fi
export TMPDIR=$D
"$D/sim" check "$p"
