#!/bin/bash
# Builds the harness against /repo's working tree, with the hooks on, and runs one check.
# C25 and C26 run parts of the same harness in other builds: with the prefetching feature and
# AddressSanitizer, with ThreadSanitizer, and for the interpreter.
cd "$(dirname "$0")" || exit 2
. ./env.sh
what=$1
[ "$1" = --replay ] && what=$(sed -n 's/^property\t//p' "$2" | head -1)
fail() {
    echo "BUILD-ERROR: the harness does not build against /repo ($1)" >&2
    tail -40 .build/build$1.log >&2
    exit 2
}
bins=--bins
[ "$what" = --build-only ] || bins="--bin ${what,,}"
cargo build --release --offline --quiet --manifest-path harness/Cargo.toml $bins >.build/build.log 2>&1 || fail ""
special() { # name, sanitizer, features, more
    RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$PWD/.build/target-$1 \
        RUSTFLAGS="$RUSTFLAGS -Zsanitizer=$2 -Cunsafe-allow-abi-mismatch=sanitizer" \
        cargo build --release --offline --quiet --manifest-path harness/Cargo.toml --bin mon --features all,$3 --target x86_64-unknown-linux-gnu $4 >.build/build-$1.log 2>&1
}
export MIRI_SYSROOT=$PWD/.build/miri-sysroot MIRI_TOOLCHAIN=nightly
miri() {
    if [ ! -e $MIRI_SYSROOT/.done ]; then
        RUSTUP_TOOLCHAIN=nightly cargo miri setup >.build/build-miri.log 2>&1 || return 1
        touch $MIRI_SYSROOT/.done
    fi
    # builds, and runs nothing but the program's complaint about its arguments
    RUSTUP_TOOLCHAIN=nightly CARGO_TARGET_DIR=$PWD/.build/target-miri MIRIFLAGS=-Zmiri-disable-isolation \
        cargo miri run --offline --manifest-path harness/Cargo.toml --bin mon --features all,few -- --bare tiny transcript 999999 >.build/build-miri.log 2>&1
    grep -q '^BARE' .build/build-miri.log
}
case $what in
C25 | C26 | --build-only)
    special asan address few,nightly "" &
    a=$!
    t= m=
    if [ $what != C25 ]; then
        special tsan thread few -Zbuild-std &
        t=$!
        miri &
        m=$!
    fi
    wait $a || fail -asan
    [ -z "$t" ] || wait $t || fail -tsan
    [ -z "$m" ] || wait $m || fail -miri
    ;;
esac
[ "$1" = --build-only ] && exit 0
exec "$CARGO_TARGET_DIR/release/${what,,}" "$@"
