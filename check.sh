#!/bin/bash
# check.sh ID [TIER]: builds the harness against /repo's working tree and decides one
# property. Exit 0 held, 1 violated (VIOLATION line), anything else no answer.
# check.sh --setup: builds everything once.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS

# The content of what is built from, not its dates, says whether a build is current.
stamp() {
    { cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1
}

# build.sh's own lock: two checks may run at once
exec 9>>"${TMPDIR:-/tmp}/vharness-build.lock"
flock 9

build() {
    local dir=harness/target now
    mkdir -p "$dir"
    now=$(stamp)
    if [ "$(cat "$dir/built-from" 2>/dev/null)" != "$now" ]; then
        rm -f "$dir/built-from"
        (cd harness && cargo clean --offline --release -p barcoders -p vharness) >/dev/null 2>&1
        local t
        for t in probe/target/*/; do
            [ -d "$t" ] && (cd probe && for p in "" --release; do cargo clean --offline $p -p barcoders -p probe --target-dir "${t#probe/}"; done) >/dev/null 2>&1
        done
    fi
    (cd harness && cargo build --offline --locked --release) >"$dir/build.log" 2>&1 || {
        echo "ERROR: the harness does not build against /repo" >&2
        grep -E '^error' -A 12 "$dir/build.log" | head -60 >&2
        return 1
    }
    echo "$now" >"$dir/built-from"
}

# The same crate with coverage counters, for tools/fuzz.sh. Only a build of the same
# sources that failed is not tried again.
build_fuzz() {
    local dir=fuzz/target now
    mkdir -p "$dir"
    now=$(stamp)
    if [ "$(cat "$dir/built-from" 2>/dev/null)" != "$now" ]; then
        rm -f "$dir/built-from"
        (cd fuzz && cargo clean --offline --release -p barcoders -p vharness) >/dev/null 2>&1
    fi
    (cd fuzz && RUSTC_WRAPPER=$PWD/rustc.sh cargo build --offline --locked --release) >"$dir/build.log" 2>&1 || return 1
    echo "$now" >"$dir/built-from"
}

build || exit 2
if [ "${1:-}" = --setup ]; then
    # the configurations C26 compares
    harness/target/release/vharness prepare C26 || exit 2
    build_fuzz || echo "NOTE: the fuzz target does not build" >&2
    exit 0
fi
bin=harness/target/release/vharness
# a copy, so that a later build does not pull it away
run=$(mktemp -d "${TMPDIR:-/tmp}/vharness.XXXXXX") || exit 2
trap 'rm -rf "$run"' EXIT
cp "$bin" "$run/vharness" || exit 2
[ "${1:-}" = C26 ] || flock -u 9
[ $# -ge 2 ] && export VERIF_TIER=$2
# an allocation without end fails instead of taking the machine's memory
run() { (ulimit -v 24000000; exec "$run/vharness" "$@"); }
if [ "${1:-}" = replay ]; then
    run replay "$2"
    exit
fi
run run "$1" || exit
case $1 in C25 | C26 | C29 | C30) exit 0 ;; esac
[ "${FUZZ_SECONDS:-}" = 0 ] && exit 0
flock 9
if build_fuzz && cp fuzz/target/release/property "$run/property"; then
    flock -u 9
    ulimit -v 24000000
    tools/fuzz.sh "$1" "$run/vharness" "$run"
else
    echo "NOTE: the fuzz target does not build; generated cases only" >&2
fi
