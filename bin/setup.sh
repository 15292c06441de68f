#!/bin/bash
set -u
export VERIF_DIR="$(cd "$(dirname "$0")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$VERIF_DIR/harness/target" CARGO_NET_OFFLINE=true
cd "$VERIF_DIR/harness" && RUSTFLAGS="${RUSTFLAGS:-} -Awarnings" cargo build --offline --release --workspace 2>&1 | tail -3
