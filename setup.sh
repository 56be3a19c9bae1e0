#!/bin/bash
# Prepares everything the checks would otherwise build themselves.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/tools/driver.sh" & d=$!
bash "$here/sim/build-sut.sh" || exit 1
wait $d
