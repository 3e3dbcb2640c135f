#!/usr/bin/env bash
# check.sh ID [quick|thorough]   rebuild from /repo's working tree, explore, report
# check.sh replay FILE           re-run the case of a replay file
# check.sh build                 build only
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
export MC_VERIF="$here"
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER RUSTDOCFLAGS
build() { # crate directory
    local log
    log="$(mktemp)"
    if ! (cd "$here/$1" && cargo build --release --offline >"$log" 2>&1); then
        grep -E '^error|^ +-->' "$log" | head -40 >&2
        tail -20 "$log" >&2
        rm -f "$log"
        return 1
    fi
    rm -f "$log"
}
case "${1:-}" in
build)
    build mc || exit 2
    build mc-conc || echo "mc-conc does not build: C25 will explore one thread only" >&2
    ;;
replay)
    build mc || exit 2
    if grep -q '"property": "C25"' "$2" && build mc-conc; then
        exec "$here/mc-conc/target/release/mc-conc" replay "$2"
    fi
    exec "$here/mc/target/release/mc" replay "$2"
    ;;
C25)
    # The library is compiled a second time, against locks that an exploring scheduler controls.
    if build mc-conc; then
        exec "$here/mc-conc/target/release/mc-conc" check "$1" "${2:-${VERIF_TIER:-quick}}"
    fi
    echo "mc-conc does not build: exploring one thread only" >&2
    build mc || exit 2
    exec "$here/mc/target/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
    ;;
C*)
    build mc || exit 2
    exec "$here/mc/target/release/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
    ;;
*)
    echo "usage: check.sh ID [quick|thorough] | replay FILE | build" >&2
    exit 2
    ;;
esac
