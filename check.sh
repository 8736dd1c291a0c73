#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
case "$tier" in
  quick) secs="${VERIF_SECS:-25}" ;;
  *) tier=thorough; secs="${VERIF_SECS:-600}" ;;
esac
bash "$here/build.sh" || exit 2
cd "$here" || exit 2
export VERIF_ROOT="$here"
exec "$here/harness/target/release/dst" check "$prop" "$tier" "$seed" "$secs"
