#!/bin/bash
cd /verif/vx && CARGO_NET_OFFLINE=true cargo build --release --offline --target-dir /verif/build/vx 2>&1 | grep -E '^error' -A9
