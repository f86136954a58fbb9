#!/bin/bash
# usage: replay.sh FILE   re-executes a recorded violation exactly; exit 1 if it happens again
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
f="$(realpath "$1")"
export DANDY_VERIF="$V"
exe="$V/target/release/dandy-sim"
if grep -q '"property": *"C20"' "$f"; then
  bash "$V/build.sh" gui || exit 2
  exe="$V/target/gui/release/dandy-sim"
else
  bash "$V/build.sh" || exit 2
fi
exec "$exe" replay "$f"
