#!/bin/bash
# check.sh PROPERTY quick|thorough   - builds /repo's working tree and decides one property.
# exit 0: held on everything explored; exit 1 and a VIOLATION line: violated; anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
export HSIM_ROOT=$here
case $prop in
  C17|C18)
    exec bash "$here/js/run.sh" "$prop" "$tier" ;;
esac
log=$(mktemp)
bash "$here/tools/driver.sh" >"$log" 2>&1 &
d=$!
bash "$here/sim/build-sut.sh" || { echo "the tree does not build"; kill $d 2>/dev/null; rm -f "$log"; exit 3; }
wait $d || { cat "$log"; rm -f "$log"; echo "the driver does not build"; exit 3; }
rm -f "$log"
exec "${HSIM_BUILD:-$here/.build}/driver/release/hsim" check --property "$prop" --tier "$tier"
