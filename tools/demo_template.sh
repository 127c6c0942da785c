#!/bin/bash
# Runs demo_test.go (beside this file) against the repository in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
w=$(mktemp -d) || exit 1
printf '{"Replace":{"%s/zdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$w/ov.json"
go test -vet=off -overlay "$w/ov.json" -c -o "$w/demo" ./zdemo && (cd "$w" && timeout 200 ./demo -test.timeout 100s)
rc=$?
rm -r "$w"
exit $rc
