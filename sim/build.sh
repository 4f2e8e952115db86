#!/bin/bash
# build.sh plain|instr|asis|opt: builds the simulator against /repo's current working tree.
# Prints the path of the binary on success; the compiler's output goes to stderr.
set -u
here=$(cd "$(dirname "$0")" && pwd)
kind=$1
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER=$here/rustc-wrap.sh
export CARGO_TARGET_DIR=$here/target-$kind
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC CARGO_BUILD_TARGET
export DST_INSTR=0
export DST_PRUNE=0
profile=release
case $kind in
instr) DST_INSTR=1 ;;
asis)
    # instrumented, but the library is not optimised
    DST_INSTR=1
    DST_PRUNE=1
    profile=asis
    ;;
opt)
    # instrumented and optimised, without overflow checks, as users build it
    DST_INSTR=1
    DST_PRUNE=1
    profile=opt
    ;;
esac
# Never trust modification times of the tree under test: always rebuild what depends on it.
fp=$CARGO_TARGET_DIR/$profile/.fingerprint
if [ -d "$fp" ]; then
    find "$fp" -maxdepth 1 \( -name 'safecurves-rust-*' -o -name 'surface-*' -o -name 'dst-*' \) -exec /bin/rm -rf {} +
fi
cargo build --profile "$profile" --offline --locked --manifest-path "$here/dst/Cargo.toml" 1>&2 || exit 2
echo "$CARGO_TARGET_DIR/$profile/dst"
