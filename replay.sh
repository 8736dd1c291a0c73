#!/bin/bash
# replay.sh <replay file>: runs the recorded execution again and prints its trace.
# exit 1: the violation was reproduced exactly; 0: it does not occur any more; 3: something else happened
set -u
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
exec "$here/harness/target/release/dst" replay "$@"
