#!/bin/bash
# build.sh OUTDIR plain|race REPO: builds OUTDIR/sim.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=$1 MODE=$2 REPO=$3
GOROOT=$(go env GOROOT)
mkdir -p "$OUT/src" "$OUT/ov"
cp "$HERE"/*.go "$HERE"/go.mod "$HERE"/go.sum "$OUT/src/"
[ -d "$HERE/simrt" ] && cp -r "$HERE/simrt" "$OUT/src/"
if [ "$REPO" != /repo ]; then sed -i "s#=> /repo#=> $REPO#" "$OUT/src/go.mod"; fi
EXTRA=
if [ "$MODE" = race ]; then
	mkdir -p "$OUT/inst"
	(cd "$HERE/instrument" && GOFLAGS=-mod=mod go build -o "$OUT/instrument" .)
	"$OUT/instrument" "$REPO" "$OUT/inst" > "$OUT/inst.json"
	EXTRA=$OUT/inst.json
fi
python3 "$HERE/overlay/mkoverlay.py" "$GOROOT" "$OUT/ov" "$MODE" $EXTRA
cd "$OUT/src"
if [ "$MODE" = race ]; then
	CGO_ENABLED=1 go build -race -tags simrace -overlay "$OUT/ov/overlay.json" -o "$OUT/sim" .
else
	go build -overlay "$OUT/ov/overlay.json" -o "$OUT/sim" .
fi
