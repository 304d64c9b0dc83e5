#!/bin/bash
# ./check.sh <PROPERTY> [harness options]   builds the harness from /repo's working tree and runs one property
# ./check.sh --build                        only builds
# ./check.sh --replay FILE                  re-runs one recorded failing case
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= PROJ_NETWORK=OFF
export CARGO_TARGET_DIR="$PWD/target" RUSTFLAGS= CARGO_INCREMENTAL=0
unset RUST_BACKTRACE
# Only the code of one property is compiled (one cargo feature per property).
build() {
    local out tool=
    if [ "$1" = T01 ]; then tool="--bin pasture-info"; fi
    for profile in checked release; do
        if ! out=$(cargo build --offline --locked --manifest-path harness/Cargo.toml --bin pasture-pbt $tool --no-default-features --features "$1" --profile $profile 2>&1); then
            echo "$out" | tail -60 >&2
            echo "check.sh: building the harness ($profile) failed" >&2
            exit 2
        fi
    done
}
# L02 is a program of its own: it still answers when the derive macro rejects the harness's own point types.
l02() {
    local art="$PWD/target/l02-artifacts.json" out
    if ! out=$(cargo build --offline --locked --manifest-path harness/Cargo.toml --profile checked --no-default-features --features L03 --bin pasture-l02 --message-format=json 2>&1 >"$art"); then
        echo "$out" | tail -60 >&2
        echo "check.sh: building pasture-l02 failed" >&2
        exit 2
    fi
    exec target/checked/pasture-l02 "$1" "$art" "${@:2}"
}
# ./check.sh ID --thorough is the same as VERIF_TIER=thorough ./check.sh ID
if [ "$2" = --thorough ]; then
    export VERIF_TIER=thorough
    set -- "$1" "${@:3}"
fi
case "$1" in
    L02) l02 run ;;
    --build) build L03; exit 0 ;;
    --replay)
        id=$(sed -n 's/.*"property": *"\([A-Z][0-9]*\)".*/\1/p' "$2" | head -1)
        [ "$id" = L02 ] && l02 replay "$2" ;;
    *) id=$1 ;;
esac
build "$id"
export PBT_BINS="checked=$PWD/target/checked/pasture-pbt,release=$PWD/target/release/pasture-pbt"
BIN="$PWD/target/release/pasture-pbt"
case "$1" in
    --replay) exec "$BIN" replay "$2" ;;
    *) exec "$BIN" run "$@" ;;
esac
