#!/bin/bash
# check.sh ID           decides a property on /repo's working tree (VERIF_TIER: quick, thorough)
# check.sh replay ID TIER FAMILY BATCH CASE    runs one case again
# check.sh build        only builds
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$VERIF_ROOT/target"
export CARGO_NET_OFFLINE=true
mkdir -p target evidence replays
exec 9>target/.lock
flock 9
# the library is always rebuilt from the working tree, whatever its dates say
find "$VERIF_ROOT/target" -maxdepth 4 -type d -path '*/.fingerprint/dynparser-*' -prune -exec rm -rf {} + 2>/dev/null
if ! cargo build --release --offline --quiet --manifest-path "$VERIF_ROOT/mc/Cargo.toml" 2>target/build.log; then
    cat target/build.log >&2
    echo "the harness doesn't build" >&2
    exit 2
fi
ulimit -v 20000000 2>/dev/null
case "${1:-}" in
    build) exit 0 ;;
    replay) shift; exec target/release/mc replay "$@" ;;
    *) exec target/release/mc check "$1" "${VERIF_TIER:-quick}" ;;
esac
