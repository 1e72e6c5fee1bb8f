#!/bin/bash
# run.sh build | run.sh <ID> <quick|thorough>
cd "$(dirname "$0")/harness" || exit 2
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
# cargo goes by mtime: forget the crate under test, so that a file put back with an old mtime is still rebuilt
rm -rf target/release/.fingerprint/gif-* target/release/.fingerprint/gifcheck-*
if ! cargo build --release --offline >target.log 2>&1; then
    cat target.log
    echo "the harness doesn't build"
    exit 2
fi
if [ "$1" = build ] || [ "$1" = C33 ]; then
    # the crate built in other ways
    rm -rf ../variants/target/*/.fingerprint/gif-* ../variants/target/*/.fingerprint/gifvariant-*
    if ! (cd ../variants && cargo build --profile plain --offline && cargo build --profile bare --no-default-features --offline) >target.log 2>&1; then
        cat target.log
        echo "the crate doesn't build in all ways"
        exit 2
    fi
    # for a 32-bit target, if the toolchain can
    rm -rf ../variants/target/i686-*/plain/.fingerprint/gif-* ../variants/target/i686-*/plain/build/gif/* ../variants/target/i686-*/plain/gifvariant
    (cd ../variants && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-C linker=$PWD/ld32.sh -C linker-flavor=ld -C relocation-model=static" \
        timeout 400 cargo build -Zbuild-std=std,panic_unwind --target i686-unknown-linux-gnu --profile plain --offline) >target.log 2>&1 || tail -5 target.log
fi
[ "$1" = build ] && exit 0
if [ "$2" = thorough ]; then
    # the coverage-guided fuzzer; without it, the check does its random part only
    rm -rf ../fuzz/target/release/.fingerprint/gif-* ../fuzz/target/release/.fingerprint/gifcheck-* ../fuzz/target/release/.fingerprint/giffuzz-*
    (cd ../fuzz && RUSTC_WRAPPER=$PWD/rustc.sh cargo build --release --offline) >target.log 2>&1 || { cat target.log; rm -f ../fuzz/target/release/giffuzz; }
fi
exec ./target/release/gifcheck check "$1" "${2:-quick}"
