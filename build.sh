#!/bin/bash
# build.sh OUTDIR PKG... : builds the named artefacts from /repo's working tree with the /verif overlay
set -e
. /opt/vp/env.sh >/dev/null 2>&1 || true
V=$(cd "$(dirname "$0")" && pwd)
OUT=$1; shift
mkdir -p "$OUT"
python3 "$V/tools/overlay.py" "$OUT/ov.json"
cd /repo
for p in "$@"; do
  case $p in
    driver) go build -overlay "$OUT/ov.json" -o "$OUT/driver" ./ginkgo/zzdriver ;;
    driver-race) go build -race -overlay "$OUT/ov.json" -o "$OUT/driver" ./ginkgo/zzdriver ;;
    interp) go test -c -vet=off -overlay "$OUT/ov.json" -o "$OUT/interp.test" ./internal/zzverif/interp ;;
    interp-race) go test -c -race -vet=off -overlay "$OUT/ov.json" -o "$OUT/interp-race.test" ./internal/zzverif/interp ;;
    ginkgo) go build -o "$OUT/ginkgo" ./ginkgo ;;
    *) echo "unknown artefact $p"; exit 2 ;;
  esac
done
