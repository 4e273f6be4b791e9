#!/bin/bash
# the server under Miri; build.sh miri comes first
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$PWD/../target/miri RUSTFLAGS=-Awarnings
exec cargo +nightly miri run --offline --locked -q
