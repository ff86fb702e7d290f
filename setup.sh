#!/bin/bash
# builds the extraction tool and the concrete harness, offline
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd xtract && cargo build --offline --release -q)
(cd harness && RUSTFLAGS=-Awarnings cargo build --offline -q) || echo "the harness does not build against this tree"
