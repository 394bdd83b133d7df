#!/bin/bash
# warms the build cache for the harness (each check rebuilds what it needs anyway)
V=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX")
"$V/build.sh" "$W" driver interp ginkgo || exit 1
rm -rf "$W"
