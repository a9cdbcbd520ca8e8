#!/bin/bash
# check.sh ID: builds from /repo's working tree, then decides one property.
# Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: error of the check.
set -uo pipefail
cd "$(cd "$(dirname "$0")" && pwd)" || exit 2
ID="${1:?property id}"
mkdir -p evidence replays
case "$ID" in
  P*) exec ./pycheck.sh check "$ID" ;;
  L*) ./build.sh lib && ./build.sh drv || { echo "build failed" >&2; exit 2; } ;;
  *) ./build.sh sim && ./build.sh drv || { echo "build failed" >&2; exit 2; } ;;
esac
SIM_VERIF="$PWD" exec target/drv/release/simdrv check "$ID"
