#!/bin/bash
# replay.sh FILE: replays a violation against /repo's current working tree
# (exit 1: reproduced; 4: no longer happens; 5: happens with another trace).
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
F=$(readlink -f "${1:?replay file}")
B=$(mktemp -d /tmp/vsim.XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
"$HERE/build.sh" "${VERIF_REPO:-/repo}" "$B" || exit 3
"$B/harness.bin" -mode replay -file "$F" -v
