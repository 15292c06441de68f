#!/bin/bash
# Compiles main.rs (beside this file) against the library just built in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
lib=$(ls -t target/debug/deps/librustfst-*.rlib | head -1)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
rustc --edition 2021 -Awarnings --extern rustfst="$lib" -L dependency=target/debug/deps -o "$d/demo" "$here/main.rs" || exit 3
cd "$d" && timeout 120 ./demo
