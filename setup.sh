#!/bin/bash
# Warms the build of the simulator (each check also builds it for itself).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
B=$(mktemp -d /tmp/simbuild.XXXXXX); trap 'rm -rf "$B"' EXIT
"$HERE/sim/build.sh" "$B" plain /repo
echo ok
