#!/bin/bash
# ./check.sh <property> [quick|thorough]   run one check against /repo's working tree
# ./check.sh replay <file>                 re-run one recorded failure
# ./check.sh build                         build the harness only
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS= RUST_BACKTRACE=0
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
export VERIF_DIR="$here" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
log="$(mktemp)"
if ! (cd "$here/harness" && cargo build --offline --locked --bins) >"$log" 2>&1; then
  tail -60 "$log" >&2
  rm -f "$log"
  echo "harness build failed" >&2
  exit 2
fi
rm -f "$log"
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$here/target/debug/vh" replay "$2" ;;
  *) ulimit -v 8000000 2>/dev/null
     exec "$here/target/debug/vh" run "$1" "${2:-$VERIF_TIER}" ;;
esac
