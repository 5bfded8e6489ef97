#!/bin/bash
# Builds the demonstration against the tree in the current directory and runs it in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/demo" "$work/demo" || exit 2
sed -i "s#@REPO@#$repo#" "$work/demo/Cargo.toml"
[ -e "$work/demo/ffi" ] && sed -i "s#@REPO@#$repo#" "$work/demo/ffi/Cargo.toml"
cd "$work/demo" || exit 2
unset RUSTC_WRAPPER RUSTC CARGO_TARGET_DIR CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg snips_nlu_verif -Awarnings"
if ! cargo build --offline --quiet > "$work/log" 2>&1; then
    cat "$work/log"
    exit 3
fi
mkdir "$work/tmp" && cd "$work/tmp" || exit 2
TMPDIR="$work/tmp" timeout 100 "$work/demo/target/debug/demo"
