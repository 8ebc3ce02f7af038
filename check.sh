#!/bin/bash
# check.sh PROPERTY quick|thorough    explore, exit 0/1 (2: no answer)
# check.sh replay FILE                run a recorded case again
# check.sh setup                      build only
set -u
cd "$(dirname "$0")/mc" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$(mktemp) || exit 2
if ! cargo build --offline --release --locked >"$log" 2>&1; then
    tail -60 "$log" >&2
    rm -f "$log"
    echo "the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"

# C28: the crate built with a subset of its features, as shared libraries
lite() {
    for f in json cbor none; do
        features=$f
        [ $f = none ] && features=
        log=../lite/target/build-$f.log
        mkdir -p ../lite/target
        if ! (cd ../lite && cargo build --offline --release --locked --features "$features") >"$log" 2>&1; then
            tail -60 "$log" >&2
            grep -q 'could not compile `cddl-cat`' "$log" || { echo "a build with fewer features fails" >&2; exit 2; }
            export MC_LITE_FAILED=$PWD/$log
            return
        fi
        cp ../lite/target/release/liblite.so ../lite/target/liblite-$f.so || exit 2
    done
}
case "${1-} ${2-}" in
    C28* | "setup "*) lite ;;
    replay*) grep -q '"kind": *"lite' "${2-}" && lite ;;
esac
case "${1-}" in
    setup) exit 0 ;;
    replay) exec ./target/release/mc replay "${2-}" ;;
    *) exec ./target/release/mc check "${1-}" "${2-quick}" ;;
esac
