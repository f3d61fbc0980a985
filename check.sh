#!/bin/bash
# usage: check.sh build
#        check.sh PROPERTY [quick|thorough]
#        check.sh replay FILE
#        check.sh selftest
# Rebuilds the simulator with the library from /repo's working tree, then runs it.
set -u
DIR=$(cd "$(dirname "$0")" && pwd)
export KPSIM_DIR="$DIR"
export CARGO_TARGET_DIR="$DIR/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER="$DIR/sim/rustc.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$DIR/target" "$DIR/evidence" "$DIR/replays"

build() {
    # cargo goes by mtime; forget the library and the simulator so that what is linked is exactly
    # what the working tree says now. The dependencies stay.
    (
        flock 9
        cd "$DIR/sim" || exit 1
        cargo clean --offline --release -p rust-kpdb -p kpcalls -p kpsim >/dev/null 2>&1
        cargo build --offline --locked --release >"$DIR/target/build.log" 2>&1 || exit 1
        cp -f "$DIR/target/release/kpsim" "$DIR/target/kpsim.$$"
    ) 9>"$DIR/target/.lock" || {
        tail -n 40 "$DIR/target/build.log"
        echo "the simulator does not build"
        exit 2
    }
}

build
BIN="$DIR/target/kpsim.$$"
trap 'rm -f "$BIN"' EXIT
case "${1:-}" in
    build) exit 0 ;;
    replay) "$BIN" replay "${2:?file}" ;;
    selftest) "$BIN" selftest ;;
    P*) "$BIN" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
    *) echo "usage: check.sh build | PROPERTY [quick|thorough] | replay FILE | selftest"; exit 2 ;;
esac
