#!/bin/bash
# builds the engine and the harness (real code of /repo) -> LLVM IR + native binary
set -e
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
D=$(cd "$(dirname "$0")" && pwd)
cd $D/llsym && CARGO_TARGET_DIR=$D/target/e cargo build --release --offline -q 2>/dev/null
cd $D/harness && RUSTFLAGS="--cfg perception_verif -Awarnings" CARGO_TARGET_DIR=$D/target/h cargo rustc --offline -q -- --emit=llvm-ir,link -Awarnings
