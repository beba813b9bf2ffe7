#!/bin/bash
# Runs the APKs beside this script through the public API; fails if an outcome differs from the correct one.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$d" >"$w/o.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local DEMO_DIR="$d"
go test -count=1 -overlay "$w/o.json" -run 'TestZZDemo$' .
