#!/bin/bash
# Builds the MIR exporter used by every check. Needs only the nightly toolchain of the image.
set -eu
cd "$(dirname "$0")"
mkdir -p build
rustc +nightly --edition 2021 -O driver/src/main.rs -o build/mirx.new -C prefer-dynamic --cap-lints allow
mv build/mirx.new build/mirx
