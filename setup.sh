#!/bin/sh
# nothing is shared between runs: every check builds what it needs; this only proves the harness builds
set -e
cd "$(dirname "$0")/harness"
cargo build --offline --release --no-default-features --features iterative,c01
