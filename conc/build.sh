#!/bin/sh
# Build the concurrent engine by hand; driver/common.py does the same.
cd "$(dirname "$0")" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="--cap-lints=warn -Zcrate-attr=feature(arbitrary_self_types)" cargo build --offline --target-dir ../build/conc "$@"
