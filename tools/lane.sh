#!/bin/bash
# lane.sh <lane dir> <patch or "-"> <secs> <PROP>...: runs checks against a scratch copy of /repo with a patch applied
# (the registered checks themselves always run against /repo).
set -u
lane="$1"; patch="$2"; secs="$3"; shift 3
mkdir -p "$lane"
rsync -a --delete --exclude target /repo/ "$lane/repo/"
rsync -a --delete --exclude /harness/target --exclude /bmcopy/src --exclude /srvcopy/src --exclude /work --exclude /evidence --exclude .git --exclude /seeded "${VERIF_SRC:-/verif}/" "$lane/verif/"
sed -i "s#\"/repo/#\"$lane/repo/#" "$lane/verif/harness/Cargo.toml" "$lane/verif/bmcopy/Cargo.toml" "$lane/verif/srvshim/Cargo.toml"
sed -i "s#cd /repo #cd $lane/repo #;s#\"/repo/#\"$lane/repo/#" "$lane/verif/build.sh"
if [ "$patch" != "-" ]; then
  (cd "$lane/repo" && git checkout -q -- . && git apply "$patch") || { echo "patch does not apply: $patch"; exit 3; }
fi
for p in "$@"; do
  VERIF_SECS=$secs bash "$lane/verif/check.sh" "$p" quick >"$lane/out.$p" 2>&1
  rc=$?
  echo "$(basename "$(dirname "$patch")") $p rc=$rc $(grep -E '^seed|^minimised|^replay in' "$lane/out.$p" | cut -c1-260 | tr '\n' '|') $(tail -1 "$lane/out.$p" | cut -c1-160)"
done
