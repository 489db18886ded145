#!/bin/bash
# try.sh PATCH PROP...: runs checks against a scratch copy of /repo with PATCH applied ("-" none; "revert:HASH" a reverted commit).
# Set NOSTABLE=1 to skip the build and the stable tests.
here=$(cd "$(dirname "$0")/.." && pwd)
p=$1; shift
. /opt/vp/env.sh
t=$(mktemp -d /tmp/try.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/repo" || exit 2
cd "$t/repo" || exit 2
case "$p" in
  -) ;;
  revert:*) git revert -n "${p#revert:}" >/dev/null 2>"$t/e" || { echo "CANNOT REVERT"; git diff --name-only --diff-filter=U; exit 2; } ;;
  *) git apply "$p" || { echo "PATCH DOES NOT APPLY"; exit 2; } ;;
esac
go build ./... && go vet ./internal/t >/dev/null 2>&1; go build ./... || { echo "DOES NOT BUILD"; exit 2; }
[ -n "$NOSTABLE" ] || { go test ./... >"$t/test" 2>&1 || { echo "TESTS FAIL"; grep -v "no test files" "$t/test" | head; }; }
mkdir -p "$t/ev" "$t/rp"
for c in "$@"; do
  s=$(date +%s)
  VERIF_REPO=$t/repo VERIF_EVIDENCE=$t/ev VERIF_REPLAYS=$t/rp VERIF_SEED=${VERIF_SEED:-1} timeout 900 "$here/run.sh" "$c" >"$t/out" 2>"$t/err"
  rc=$?
  echo "$c rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION "$t/out") violations: $(tail -n +1 "$t/err" | grep -v 'done in' | head -3 | cut -c1-220 | tr '\n' ' ') $(head -3 "$t/out" | cut -c1-200 | tr '\n' ' ')"
done
