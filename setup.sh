#!/bin/bash
# Builds everything once so that the checks only rebuild what changed.
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$V/build.sh" || exit 1
bash "$V/build.sh" gui || exit 1
"$V/target/gui/release/dandy-sim" list
