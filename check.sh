#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's current
# working tree and searches for violations of one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; other: the
# check itself failed.
set -u
PROP=${1:?property}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
REPO=${VERIF_REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
case $TIER in
  thorough) SECS=${VERIF_SECS:-420} ;;
  *) TIER=quick; SECS=${VERIF_SECS:-20} ;;
esac
B=$(mktemp -d /tmp/vsim.XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
"$HERE/build.sh" "$REPO" "$B" || exit 3
"$B/harness.bin" -mode check -prop "$PROP" -seed "$SEED" -tier "$TIER" -secs "$SECS" \
  -replays "$HERE/replays" -evidence "$HERE/evidence/$PROP.json" -known "$HERE/known_findings.json"
