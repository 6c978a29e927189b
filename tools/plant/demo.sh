#!/bin/bash
# Runs the demonstration against the working tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$d"/*_test.go; do
    echo "$sep\"$PWD/internal/startup/zz_$(basename "$f")\":\"$f\""
    sep=,
  done
  echo '}}'
} > "$t/overlay.json"
TMPDIR=$t go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s -run TestDemo ./internal/startup
