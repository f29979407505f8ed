#!/bin/bash
# run.sh <property> [quick|thorough|replay FILE]: builds the check of one property against /repo's
# working tree and runs it. Exit 0: held; 1: VIOLATION line; 2: the check could not be run.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
id=$1
shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-stable}"
mkdir -p "$VERIF_DIR/target" "$VERIF_DIR/replays" "$VERIF_DIR/evidence"
log="$VERIF_DIR/target/build-$id.log"
build() {
    cargo build --offline --release --manifest-path harness/Cargo.toml --bin "$bin" "$@" >"$log" 2>&1
}
built=
if [ "$id" = C08 ]; then
    # SparsePolynomial::trim needs an optional feature, which needs unstable features to be allowed.
    RUSTC_BOOTSTRAP=1 build --features trim && built=1
fi
if [ -z "$built" ] && ! build; then
    tail -n 40 "$log" >&2
    echo "error: the check of $id does not build" >&2
    exit 2
fi
exec "$VERIF_DIR/target/release/$bin" "$@"
