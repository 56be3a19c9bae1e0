#!/bin/bash
# replay.sh FILE   - repeats the execution recorded in a replay file against /repo's working tree
here=$(cd "$(dirname "$0")" && pwd)
export HSIM_ROOT=$here
if grep -q '"js": true' "$1"; then exec bash "$here/js/run.sh" replay "$1"; fi
bash "$here/setup.sh" >/dev/null || exit 3
exec "${HSIM_BUILD:-$here/.build}/driver/release/hsim" replay "$@"
