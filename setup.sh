#!/bin/bash
# builds the MIR dumper (needs only the installed nightly toolchain)
set -e
cd "$(dirname "$0")/driver"
cargo +nightly build --release --offline -q
