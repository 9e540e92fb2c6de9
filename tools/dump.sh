#!/bin/bash
# usage: dump.sh REPO_COPY OUT.json TARGET_DIR FEATURE-ARGS...
R=$1; O=$2; T=$3; shift 3
H=$(cd "$(dirname "$0")/.." && pwd)
export MIRDUMP_OUT=$O MIRDUMP_CRATE=${MIRDUMP_CRATE:-email_parser} CARGO_TARGET_DIR=$T LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib RUSTC_WORKSPACE_WRAPPER=$H/driver/target/debug/mirdump
export RUSTFLAGS="-Zmir-enable-passes=-CheckAlignment,-CheckNull"
rm -f $O
if [ -d $R/email-parser ]; then touch $R/email-parser/src/lib.rs; P="-p email-parser"; else touch $R/src/lib.rs; P=""; fi
cargo +nightly check --offline -q --manifest-path $R/Cargo.toml $P --lib "$@" 2> $T.err || { tail -60 $T.err >&2; exit 3; }
[ -s $O ] || { echo "no dump" >&2; exit 3; }
