#!/bin/bash
# builds demo_test.go (beside this file) against the ginkgo in the current directory and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
printf '{"Replace":{"%s/internal/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$r" "$d" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -c -o "$t/demo.test" ./internal/zzdemo || exit 3
args=(); post=(); procs=1; cli=
[ -f "$d/opts" ] && . "$d/opts"
cd "$t"
if [ "$procs" -gt 1 ] || [ -n "$cli" ]; then
  (cd "$r" && go build -o "$t/ginkgo" ./ginkgo) || exit 3
  DEMO_DIR=$t timeout -k 5 120 "$t/ginkgo" run --no-color --procs=$procs "${args[@]}" ./demo.test "${post[@]}" > "$t/out" 2>&1; rc=$?
else
  DEMO_DIR=$t timeout -k 5 120 ./demo.test "${args[@]}" > "$t/out" 2>&1; rc=$?
fi
tail -40 "$t/out"
if declare -f judge > /dev/null; then judge; exit $?; fi
exit $rc
