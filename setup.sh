#!/bin/bash
# Builds the harness once, offline.
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true
cargo build --release --offline
