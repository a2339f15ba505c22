#!/bin/bash
# setup.sh: warms the Go build cache and checks that the simulator builds from
# the committed files (every check builds for itself).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
B=$(mktemp -d /tmp/vsim.XXXXXX)
trap 'rm -rf "$B"' EXIT
"$HERE/build.sh" "${VERIF_REPO:-/repo}" "$B"
