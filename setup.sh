#!/bin/bash
# Builds the simulation once from /repo's working tree, so that a broken tool chain shows early and the
# build cache is warm. The checks build for themselves.
cd "$(dirname "$0")" || exit 1
D=$(mktemp -d "${TMPDIR:-/tmp}/fontsim.XXXXXX") || exit 1
trap 'rm -rf "$D"' EXIT
./sim/build.sh "$D"
