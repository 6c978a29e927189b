#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property.
# check.sh -replay FILE, check.sh -determinism PROPERTY [N], check.sh -setup
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$here HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off
bin=$here/.work/bin
mkdir -p "$bin"
(
  flock 9
  cd "$here/sim" && GO111MODULE=on GOFLAGS= go build -o "$bin/" ./cmd/simgen ./cmd/simctl
) 9>"$bin/lock" || exit 3
case ${1:-} in
-replay) exec "$bin/simctl" replay "$2" ;;
-determinism) exec "$bin/simctl" determinism "$2" "${3:-200}" ;;
-setup) exec "$bin/simctl" build ;;
esac
exec "$bin/simctl" check "$1" "${2:-${VERIF_TIER:-quick}}"
