#!/bin/bash
# Usage: build.sh DIR [PROPERTY] - instruments /repo's working tree and builds the simulation binary in DIR.
set -e
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
cd "$(dirname "$0")"
D=$1; mkdir -p "$D/src"
PKGS=github.com/unidoc/unitype
if [ "$2" = C17 ] || [ "$2" = C20 ]; then
	PKGS=github.com/unidoc/unitype/truecli
	CMD=./cmd/clisim
fi
# The module files may be touched by -mod=mod: work on copies.
cp go.mod "$D/go.mod"; cp go.sum "$D/go.sum"
build() {
	go run -modfile "$D/go.mod" ./cmd/instrument -sim . -out "$D/src" -pkgs "$PKGS" "$@" &&
		go build -modfile "$D/go.mod" -overlay "$D/src/overlay.json" -o "$D/sim" ${CMD:-./cmd/fontsim}
}
# Uses of maps are hooked by rewriting expressions; code that does not compile so is simulated without.
build || { echo "retrying without resets of package state" >&2; build -reset=false; } ||
	{ echo "retrying without hooks on map accesses" >&2; build -maps=false -reset=false; }
