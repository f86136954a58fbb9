#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]   (VERIF_SEED selects the seed; default 1)
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export DANDY_VERIF="$V"
exe="$V/target/release/dandy-sim"
if [ "$1" = C20 ]; then
  bash "$V/build.sh" gui || exit 2
  exe="$V/target/gui/release/dandy-sim"
else
  bash "$V/build.sh" || exit 2
fi
exec "$exe" check "$1" "${2:-${VERIF_TIER:-quick}}"
