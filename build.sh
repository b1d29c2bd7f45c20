#!/bin/bash
# Builds the monitor, the fault-injection shim and the tool under test (from /repo's working tree).
set -u
cd "$(dirname "$0")" || exit 2
V=$(pwd)
REPO=${MON_REPO:-/repo}
mkdir -p build evidence replays
export CARGO_NET_OFFLINE=true
(
  flock 9
  if [ ! -x harness/target/release/mon ] || [ -n "$(find harness/src harness/Cargo.toml -newer harness/target/release/mon -print -quit)" ]; then
    cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir harness/target >build/harness.log 2>&1 || { grep -m 8 -A12 "^error" build/harness.log >&2; tail -3 build/harness.log >&2; exit 3; }
    touch harness/target/release/mon
  fi
  if [ ! -f build/shim.so ] || [ harness/shim/shim.c -nt build/shim.so ]; then
    gcc -shared -fPIC -O2 -Wall -o build/shim.so.tmp harness/shim/shim.c -ldl && mv build/shim.so.tmp build/shim.so || exit 3
  fi
  CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG=1 \
  cargo build --release --offline --locked --manifest-path "$REPO/Cargo.toml" --bin midi2spc \
    --config 'profile.release.package.ghakuf.overflow-checks=false' \
    --target-dir "$V/build/cli" >build/cli.log 2>&1 || { tail -40 build/cli.log >&2; echo "the tool does not build from $REPO" >&2; exit 4; }
) 9>build/lock
