#!/bin/bash
# builds the harness and the crates the generated code links against
cd "$(dirname "$0")/engine" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR
cargo build --release --offline
