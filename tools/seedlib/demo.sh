#!/bin/bash
# Runs the demonstration against the package in the current directory; exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demohelp_test.go":"%s/demohelp_test.go","%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" "$PWD" "$here" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
