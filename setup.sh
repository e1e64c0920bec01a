#!/bin/bash
# builds the extractor and the bounded harness from the committed files, offline
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
(cd extract && CARGO_TARGET_DIR=$PWD/target cargo build --offline --locked)
python3 rename/gen_rename.py 1 rename/gen 8
export CARGO_TARGET_DIR=$PWD/harness/target CARGO_INCREMENTAL=0
(cd harness && cargo build --offline --locked)
(cd rename && cargo build --offline --locked)
(cd derive && CARGO_TARGET_DIR=$PWD/target RUSTC_BOOTSTRAP=1 cargo rustc --offline --locked --lib -- -Zunpretty=expanded > /dev/null)
