#!/bin/bash
# usage: check.sh <property> <quick|thorough>
set -u
export VERIF_DIR="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target" CARGO_NET_OFFLINE=true
export VERIF_SEED="${VERIF_SEED:-1}"
cd "$VERIF_DIR/harness" || exit 2
if ! RUSTFLAGS="${RUSTFLAGS:-} -Awarnings" cargo build --offline --release --workspace >"$VERIF_DIR/harness/build.log" 2>&1; then
  tail -40 "$VERIF_DIR/harness/build.log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/release/vharness" check "$1" --tier "${2:-quick}" --seed "$VERIF_SEED"
