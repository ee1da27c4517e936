#!/bin/bash
# Builds the simulator (instrumented goggles + dependencies + harness) from /repo's working tree.
# usage: build.sh  -> prints nothing on success; binary: sim/target/x86_64-unknown-linux-gnu/debug/gsim
set -e
cd "$(dirname "$0")/../sim"
export PATH=/usr/local/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
# The instrumentation pass is the seam; the flag itself is unstable on this toolchain.
export RUSTC_BOOTSTRAP=1
export CARGO_TARGET_DIR="$PWD/target"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-func-entry-exit=0"
exec 9>"$PWD/.build.lock"
flock 9
mkdir -p "$PWD/target"
# ask the compiler about the program pairs (only some properties need them)
if [ -n "$GSIM_PAIRS" ]; then
  python3 ../bin/accept.py "$PWD/target/accepted" || exit 70
elif [ ! -e target/accepted ] || [ -s target/accepted ]; then
  : > target/accepted
fi
# cargo decides by mtime; a file put back with an old mtime must not leave a stale build
rm -rf /verif/sim/target/x86_64-unknown-linux-gnu/debug/.fingerprint/goggles-* || true
cargo build --offline --locked --target x86_64-unknown-linux-gnu 2>"$PWD/.build.log" || { tail -60 "$PWD/.build.log" >&2; exit 70; }
