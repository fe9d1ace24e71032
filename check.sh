#!/bin/bash
# check.sh <property> [quick|thorough]: build the checker from /repo's working tree, then run one check.
# exit 0: held on everything explored; 1: VIOLATION printed; anything else: the check could not run.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=1.87.0 CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
log=$(mktemp)
# cargo looks at modification times; copies of /repo may carry old ones, so compare contents instead
src=$(cd /repo && find programs merkle-tree Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
stamp=mc/target/repo.sha256
if [ -d mc/target ] && [ "$(cat "$stamp" 2>/dev/null)" != "$src" ]; then
    cargo clean --manifest-path mc/Cargo.toml --release --offline -p presale -p merkle-tree -p mc >>"$log" 2>&1
    rm -f "$stamp"
fi
if ! cargo build --manifest-path mc/Cargo.toml --release --locked --offline >>"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
echo "$src" >"$stamp"
[ "$1" = build ] && exit 0
exec mc/target/release/mc check "$1" "${2:-${VERIF_TIER:-quick}}"
