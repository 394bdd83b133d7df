#!/bin/bash
# check.sh PROPERTY quick|thorough : rebuilds what the check needs from /repo's working tree and runs it
set -u
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1 || true
P=$1; TIER=${2:-quick}
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-$P-XXXXXX")
trap 'chmod -R u+w "$W" 2>/dev/null; rm -rf "$W"' EXIT
mkdir -p "$W/bin" "$W/work" "$V/evidence"
case $P in
  C10|C11|C13|C22|C23|C30|C29|C25) ARTS="driver interp ginkgo" ;;
  C12) ARTS="driver-race" ;;
  C17) ARTS="driver-race interp ginkgo" ;;
  C31) ARTS="driver interp interp-race ginkgo" ;;
  *) ARTS="driver interp ginkgo" ;;
esac
if ! "$V/build.sh" "$W/bin" $ARTS >"$W/build.log" 2>&1; then
  cat "$W/build.log"; echo "check error: the tree does not build"; exit 2
fi
cd "$W"
export GORACE="exitcode=66 halt_on_error=0"
"$W/bin/driver" -prop "$P" -tier "$TIER" -seed "${VERIF_SEED:-1}" -bin "$W/bin" -work "$W/work" -verif "$V"
