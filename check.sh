#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh replay <file>   |   check.sh build
set -u
cd "$(dirname "$0")" || exit 2
export MC_HOME="$PWD"
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$PWD/mc/target"
build() {
    # /repo may have been replaced by a tree with old timestamps: always rebuild the crate itself.
    ( cd mc && cargo clean -q --offline --release -p tedium >/dev/null 2>&1; RUSTFLAGS="${RUSTFLAGS:-} -Awarnings" cargo build -q --offline --release --locked ) >&2
}
case "${1:-}" in
build) build || exit 2 ;;
replay) build || exit 2; exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
"") echo "usage: check.sh <property> [quick|thorough]" >&2; exit 2 ;;
*)
    tier="${2:-${VERIF_TIER:-quick}}"
    [ -n "${MC_NOBUILD:-}" ] || build || { echo "build failed" >&2; exit 2; }
    exec "$CARGO_TARGET_DIR/release/mc" run "$1" "$tier" ;;
esac
