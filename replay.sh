#!/bin/bash
# Usage: replay.sh FILE - rebuilds from /repo's working tree and replays a violation.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
D=$(mktemp -d "${TMPDIR:-/tmp}/fontsim.XXXXXX") || exit 2
trap 'rm -rf "$D"' EXIT
./sim/build.sh "$D" "$p" >"$D/build.log" 2>&1 || { cat "$D/build.log"; exit 2; }
export TMPDIR=$D
"$D/sim" replay "$f"
