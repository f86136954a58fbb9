#!/bin/bash
# development build with the graphical program
export CARGO_TARGET_DIR=/verif/target/gui CARGO_NET_OFFLINE=true
cd /verif/sim && cargo build --release --offline --features gui --bin dandy-sim 2>&1 | grep -A12 -E '^error|could not' | head -${1:-80}
