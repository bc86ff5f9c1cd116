#!/bin/bash
# Development build of the harness: errors only.
cd /verif/harness && CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR=/verif/target cargo build --offline --message-format=short 2>&1 | grep -E "^src/.*(error|warning)|^error|Finished|/repo.*error" | head -${1:-60}
