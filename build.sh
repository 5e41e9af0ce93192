#!/bin/bash
# builds the simulator, and the library under test with it, from /repo's working tree
cd /verif/sim || exit 2
export RUSTFLAGS=-Awarnings RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
exec cargo build --release --offline -q
