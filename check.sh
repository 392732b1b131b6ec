#!/bin/bash
# check.sh ID [quick|thorough]: build what is needed from /repo's working tree, run one check
cd "$(dirname "$0")/engine" || exit 2
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUSTUP_TOOLCHAIN=1.90.0
unset CARGO_TARGET_DIR
if ! cargo build --release --offline >target-build.tmp 2>&1; then
  cat target-build.tmp >&2
  rm -f "$PWD/target-build.tmp"
  exit 2
fi
rm -f "$PWD/target-build.tmp"
exec ./target/release/harness check "$@"
