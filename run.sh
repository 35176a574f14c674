#!/bin/bash
# run.sh <property> [quick|thorough] [more flags]: decides one property on /repo's working tree.
cd "$(dirname "$0")"
. ./env.sh
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift
if [ ! -x bin/gosym ] || [ -n "$(find engine -name '*.go' -newer bin/gosym -print -quit)" ]; then
  bash setup.sh || exit 2
fi
exec ./bin/gosym -verif "$V" -repo "${GOSYM_REPO:-/repo}" -prop "$P" -tier "$T" "$@"
