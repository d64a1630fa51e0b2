#!/bin/bash
# builds the MIR dumper and warms the dependency caches; every check can also do this by itself
cd "$(dirname "$0")"
python3-vt -c "from vf import build; build.dump()"
CARGO_TARGET_DIR=$PWD/build/harness cargo build --release --offline --bins --manifest-path harness/Cargo.toml 2>&1 | tail -1
exit 0
