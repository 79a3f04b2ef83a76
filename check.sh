#!/bin/bash
# ./check.sh build | <property> <quick|thorough> | replay <file>
# Rebuilds the checker from /repo's working tree, then explores.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export HOME="${HOME:-/root}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
[ -d /root/.cargo/bin ] && PATH="/root/.cargo/bin:$PATH"
build() {
    mkdir -p "$here/target" "$here/evidence" "$here/replays" || return 1
    (
        flock 9
        # time stamps of a copied tree prove nothing: rebuild diffy whenever its text differs
        local now
        now="$(cd /repo && { cat Cargo.toml; find src -type f | LC_ALL=C sort | xargs sha256sum; } | sha256sum)"
        if [ "$(cat "$here/target/stamp" 2>/dev/null)" != "$now" ]; then
            for profile in release unopt sched; do
                cargo clean --profile $profile --offline --manifest-path mc/Cargo.toml -p diffy >/dev/null 2>&1
            done
            rm -f "$here/target/stamp"
        fi
        for profile in "$@"; do
            wrapper=
            [ $profile = sched ] && wrapper="$here/mc/sched-rustc.sh"
            if ! RUSTC_WRAPPER="$wrapper" cargo build --profile $profile --offline --quiet --manifest-path mc/Cargo.toml >"$here/target/build.log" 2>&1; then
                tail -40 "$here/target/build.log" >&2
                exit 1
            fi
        done
        echo "$now" >"$here/target/stamp"
    ) 9>"$here/target/.lock"
}
# C19 needs an unoptimised build as well, C17 one with scheduling points
case "${1:-}" in
    build | replay) profiles="release unopt sched" ;;
    C17) profiles="release sched" ;;
    C19) profiles="release unopt" ;;
    *) profiles=release ;;
esac
if ! build $profiles; then
    echo "cannot build the checker against /repo" >&2
    exit 2
fi
mc="$here/target/release/mc"
case "${1:-}" in
    build) exit 0 ;;
    replay) exec "$mc" replay "$2" ;;
    *) exec "$mc" run "$1" "${2:-${VERIF_TIER:-quick}}" "$here/evidence/$1.json" "$here/replays" "$here/known_findings.txt" ;;
esac
