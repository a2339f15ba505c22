#!/bin/bash
# build.sh REPO OUTDIR: rewrites REPO's package onto the simulator and builds
# OUTDIR/harness.bin.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on
[ -n "${HOME:-}" ] || export HOME=/root
mkdir -p "$2" && cp -r "$HERE/sim/." "$2/" || exit 3
cd "$2" || exit 3
go run ./simgen -src "$1" -out "$2" || { echo "build.sh: rewriting $1 failed" >&2; exit 3; }
go build -o harness.bin ./harness || { echo "build.sh: building the harness failed" >&2; exit 3; }
