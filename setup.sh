#!/bin/bash
# builds the extractor and the replay harness (both offline)
set -e
cd "$(dirname "$0")"
(cd vx && cargo build --release --offline 2>&1 | tail -2)
(cd harness && RUSTFLAGS="--cfg verif_hooks -A warnings" CARGO_TARGET_DIR="$PWD/target" cargo build --release --offline 2>&1 | tail -2)
mkdir -p evidence
