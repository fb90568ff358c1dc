#!/bin/bash
# builds the bounded harness and the extractor from committed files
cd "$(dirname "$0")" || exit 1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/repo/target
(cd harness && cargo build --offline -q) || exit 1
(cd vx && cargo build --offline -q) || exit 1
