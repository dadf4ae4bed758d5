#!/bin/bash
# check.sh ID quick|thorough   |   check.sh replay FILE
# Builds the simulator against /repo's current working tree in a scratch directory and runs it.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export SIM_VERIF=$HERE
REPO=${SIM_REPO:-/repo}
ID=${1:?usage: check.sh ID TIER | replay FILE}
ARG=${2:-${VERIF_TIER:-quick}}
PROP=$ID
if [ "$ID" = replay ]; then
	PROP=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$ARG") || exit 2
fi
case " P12 P13 P19 " in *" $PROP "*) MODE=race ;; *) MODE=plain ;; esac
B=$(mktemp -d /tmp/simbuild.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
"$HERE/sim/build.sh" "$B" "$MODE" "$REPO" || { echo "check.sh: build failed" >&2; exit 2; }
if [ "$ID" = replay ]; then
	"$B/sim" replay "$ARG"
else
	"$B/sim" check "$ID" "$ARG"
fi
