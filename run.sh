#!/bin/bash
# run.sh PROPERTY [case]: decides one property against $VERIF_REPO (default /repo).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off VERIF_DIR=${VERIF_DIR:-$here}
s=$(mktemp -d /tmp/vhbuild.XXXXXX) || exit 2
trap 'rm -rf "$s"' EXIT
(cd "$here/harness" && go build -buildvcs=false -o "$s/vh" ./cmd/vh) || { echo "harness does not build"; exit 2; }
VH_BIN="$s/vh" "$s/vh" "$@"
