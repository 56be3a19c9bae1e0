#!/bin/bash
# run.sh PROPERTY TIER | run.sh replay FILE
here=$(cd "$(dirname "$0")" && pwd)
if [ "$1" = replay ]; then exec node "$here/main.mjs" replay "$2"; fi
exec node "$here/main.mjs" check "$1" "${2:-quick}"
