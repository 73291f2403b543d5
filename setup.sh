#!/bin/sh
# Build the simulator (offline, from committed files only).
cd "$(dirname "$0")/sim" || exit 2
env -u RUSTFLAGS -u CARGO_TARGET_DIR cargo build --release --offline --quiet 2>build.log || { cat build.log >&2; exit 2; }
