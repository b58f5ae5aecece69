#!/bin/bash
# Usage: run.sh PROPERTY [quick|thorough] | build | replay FILE | run PROP SIZE SEED IDX
# Rebuilds the simulator against /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/target"
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p evidence replays target
log=target/build.$$.log
if ! (cd sim && cargo build --release --offline --quiet) >"$log" 2>&1; then
    cat "$log"; rm -f "$log"
    echo "the simulator does not build against /repo"
    exit 2
fi
rm -f "$log"
sim=target/release/conch-sim
case "$1" in
    build) exit 0 ;;
    replay|run) exec "$sim" "$@" ;;
    *) exec "$sim" check "$1" "${2:-quick}" ;;
esac
