#!/bin/bash
# Run with cwd /repo (built).  Exit 0: the property holds; non-zero: it is broken.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/bin" "$t/tmp"
{ printf '{"Replace":{'; s=
  for f in "$d"/*.go; do printf '%s"%s/zzdemo/%s_test.go":"%s"' "$s" "$PWD" "$(basename "$f" .go)" "$f"; s=,; done
  printf '}}'; } >"$t/overlay.json"
go build -buildvcs=false RACEFLAG -o "$t/bin/" ./cmd/... || exit 2
go test -vet=off RACEFLAG -overlay "$t/overlay.json" -c -o "$t/demo.test" ./zzdemo || exit 2
BIN=$t/bin TMPDIR=$t/tmp "$t/demo.test" -test.timeout 200s
