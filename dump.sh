#!/bin/bash
# dump.sh OUT.json : rebuild the witness crate against /repo's current tree and dump its MIR
set -e
cd "$(dirname "$0")"
OUT=$1
SCR=${VERIF_SCRATCH:-$PWD/.scratch}
mkdir -p "$SCR"
if [ ! -x driver/target/release/mirdump ] || [ driver/src/main.rs -nt driver/target/release/mirdump ]; then
  (cd driver && cargo +nightly build --release --offline -q)
fi
T=$(mktemp -d "$SCR/t.XXXXXX")
trap 'rm -rf "$T"' EXIT
rm -f "$OUT"
cd witness
MIRDUMP_SHADOW=$PWD/../driver/shadow.txt MIRDUMP_STOP=$PWD/../driver/stop.txt MIRDUMP_OUT=$OUT LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib \
 RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings" RUSTC_WORKSPACE_WRAPPER=$PWD/../driver/target/release/mirdump \
 cargo +nightly check --offline -q ${PROBE:+--features probe} --target-dir "$T" || [ -s "$OUT" ]
