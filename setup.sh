#!/bin/bash
# Builds the driver and the engine from the committed sources, offline.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
(cd driver && RUSTC_BOOTSTRAP=1 cargo +nightly build --offline)
(cd engine && cargo build --release --offline)
