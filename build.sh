#!/bin/bash
# build.sh engine | ir <profile> | runner <profile>     profile: dev, release, small
# (small: dev with --cfg cola_small_nodes)
set -e
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN_VERIF:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
V=$(cd "$(dirname "$0")" && pwd)
T=${VERIF_TARGET:-$V/target}
P=${2:-dev}; D=debug; S=; C=
[ "$P" = release ] && D=release
if [ "$P" = small ]; then P=dev; S=-small; C=" --cfg cola_small_nodes"; fi
export RUSTFLAGS="-A warnings$C"
[ "$1" = engine ] && unset RUSTFLAGS
case "$1" in
engine) cd $V/engine && CARGO_TARGET_DIR=$T/engine cargo build --release -q ;;
ir) cd $V/harness && CARGO_TARGET_DIR=$T/ir$S cargo rustc -q --profile $P --lib --crate-type cdylib -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp
    echo $T/ir$S/$D/deps/harness.ll ;;
runner) cd $V/harness && CARGO_TARGET_DIR=$T/native$S cargo build -q --profile $P --bin runner
    echo $T/native$S/$D/runner ;;
esac
