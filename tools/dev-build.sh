#!/bin/bash
# development build
export CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
cd /verif/sim && cargo build --release --offline 2>&1 | grep -A12 -E '^error|could not' | head -${1:-80}
