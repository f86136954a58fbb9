#!/bin/bash
# Builds the simulator and the system under test from /repo's current working tree. Offline.
# usage: build.sh [gui]   gui: the simulator of the graphical program (C20) instead, in a target directory of its own
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export DANDY_VERIF="$V"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
T="$V/target"
what=()
if [ "${1:-}" = gui ]; then
  T="$V/target/gui"
  what=(--features gui --bin dandy-sim)
fi
export CARGO_TARGET_DIR="$T"
mkdir -p "$T"
exec 9>"$T/.build.lock"
flock 9
# Modification times prove nothing in a copied tree: compare contents.
want="$( {
  find /repo/dandy /repo/dandy-draw /repo/dandy-wasm /repo/dandy-cli /repo/dandy-egui "$V/sim" -type f \
    \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.c' -o -name '*.dfa' -o -name '*.nfa' -o -name '*.regex' \) \
    -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum
  rustc --version
} | sha256sum | cut -d' ' -f1)"
have="$(cat "$T/.sources" 2>/dev/null)"
if [ "$want" != "$have" ] || [ ! -x "$T/release/dandy-sim" ]; then
  rm -f "$T/.sources"
  cd "$V/sim" || exit 2
  cargo clean --release --offline -p dandy -p dandy-draw -p dandy-wasm -p dandy-sim >/dev/null 2>&1
  if ! cargo build --release --offline "${what[@]}" >"$T/build.log" 2>&1; then
    tail -40 "$T/build.log" >&2
    echo "build of the simulator failed" >&2
    exit 2
  fi
  if [ "${1:-}" != gui ]; then
    if ! gcc -O2 -Wall -fPIC -shared -o "$T/simos.so.new" "$V/sim/shim/simos.c" -ldl >>"$T/build.log" 2>&1; then
      tail -20 "$T/build.log" >&2
      exit 2
    fi
    mv "$T/simos.so.new" "$T/simos.so"
  fi
  echo "$want" > "$T/.sources"
fi
flock -u 9
exec 9>&-
