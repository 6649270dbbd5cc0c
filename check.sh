#!/bin/bash
# check.sh ID            run one property's check (tier from VERIF_TIER, seed from VERIF_SEED)
# check.sh ID thorough   the same, deep tier
# check.sh --replay FILE re-run one recorded violation
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2/3: the check could not run.
cd "$(dirname "$0")" || exit 2
VERIF_DIR=$PWD
export VERIF_DIR VERIF_SEED="${VERIF_SEED:-1}"
case "$2" in thorough|quick) VERIF_TIER=$2 ;; esac
export VERIF_TIER="${VERIF_TIER:-quick}"
. ./env.sh
if [ "$1" = --replay ]; then
    prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
else
    prop=$1
fi
build() { cargo build --offline --quiet --manifest-path harness/Cargo.toml --target-dir "$VERIF_DIR/harness/target" "$@"; }
# the transparent group (toy) and the other symmetric schemes (alt) need the
# crate's group and symmetric traits as they are today; the rest does not
built=
for f in toy,alt alt toy ""; do
    if build --features "$f" 2> harness/build.log; then built=yes; break; fi
    echo "note: does not build with features '$f'" >&2
done
if [ -z "$built" ]; then
    cat harness/build.log >&2
    echo "the harness does not build against /repo" >&2
    exit 2
fi
bin="$VERIF_DIR/harness/target/debug/gpsw_check"
# the Python and WebAssembly modules, from the same tree
module() {
    [ -f /repo/Cargo.lock ] || cp /opt/vp/Cargo.lock /repo/Cargo.lock
    cargo build --offline --quiet --lib --manifest-path /repo/Cargo.toml --target-dir "$VERIF_DIR/work/$1" \
        --config profile.dev.opt-level=2 --config profile.dev.debug=0 "${@:2}" 2> "$VERIF_DIR/work/build.log" && return
    cat "$VERIF_DIR/work/build.log" >&2
    echo "the $1 module does not build" >&2
    exit 2
}
mkdir -p "$VERIF_DIR/work"
case "$prop" in
    C25 | C32)
        module py --features python
        export GPSW_PY="$VERIF_DIR/work/py/module"
        mkdir -p "$GPSW_PY"
        cp "$VERIF_DIR/work/py/debug/libcosmian_abe_gpsw.so" "$GPSW_PY/cosmian_abe_gpsw.so" || exit 2
        ;;
esac
case "$prop" in
    C26 | C32)
        module wasm --target wasm32-unknown-unknown --features wasm_bindgen
        export GPSW_WASM_PKG="$VERIF_DIR/work/wasm/pkg"
        wasm-bindgen --target nodejs --out-dir "$GPSW_WASM_PKG" \
            "$VERIF_DIR/work/wasm/wasm32-unknown-unknown/debug/cosmian_abe_gpsw.wasm" || exit 2
        ;;
esac
if [ "$1" = --replay ]; then exec "$bin" replay "$2"; fi
limit=840
[ "$VERIF_TIER" = thorough ] && limit=14400
timeout -k 10 "$limit" "$bin" run "$prop"
