#!/bin/bash
# check.sh <property> <quick|thorough>
D="$(cd "$(dirname "$0")" && pwd)"; cd "$D" || exit 3
id=$1; tier=${2:-${VERIF_TIER:-quick}}
export ZKV_DIR="$D" VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
rm -f "$D/evidence/$id.json" "$D/evidence/$id.debug-build.json"
"$D/build.sh" release || exit 3
B="$D/harness/target"
"$B/release/zkv" check "$id" "$tier"; rc=$?
[ $rc -eq 0 ] || exit $rc
# the same families in a build with the repository's debug assertions and debug-only code
if "$B/release/zkv" has-debug "$id"; then
  "$D/build.sh" dbg || exit 3
  ZKV_EVIDENCE="$D/evidence/$id.debug-build.json" "$B/dbg/zkv" check "$id" "$tier"; rc=$?
  [ $rc -eq 1 ] && cp "$D/evidence/$id.debug-build.json" "$D/evidence/$id.json"
fi
exit $rc
