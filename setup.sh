#!/bin/bash
# builds the MIR exporter (every check rebuilds it too if it is missing)
cd "$(dirname "$0")/mirx" && CARGO_TARGET_DIR="$PWD/target" cargo +nightly build --offline
