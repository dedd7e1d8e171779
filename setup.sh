#!/bin/bash
# Builds the extractor and the harness (every check also builds them itself when they are missing).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd vx && cargo build --release --offline --target-dir ../build/vx)
(cd harness && cargo build --release --offline --target-dir ../build/harness)
./build/harness/release/vh axioms all
