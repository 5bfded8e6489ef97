#!/bin/bash
# real crate + harness -> LLVM IR, for the symbolic executor
set -e
cd /verif/harness
export CARGO_INCREMENTAL=0 RUSTUP_TOOLCHAIN=nightly __CARGO_TESTS_ONLY_SRC_ROOT=/verif/target/rustsrc/library CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
export RUSTFLAGS="--cfg snips_nlu_verif --emit=llvm-ir -Cpanic=abort -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp -Copt-level=1 -Coverflow-checks=on -Cdebuginfo=line-tables-only -Zinline-mir=no"
exec cargo build --lib --locked --offline -Zbuild-std=std,panic_abort -Zchecksum-freshness --target riscv64gc-unknown-linux-gnu --target-dir /verif/target/ir "$@"
