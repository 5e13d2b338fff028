#!/bin/bash
# run.sh setup | run.sh <property id> | run.sh replay <file>
# Builds the harness against /repo's current working tree, offline, and runs one check.
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
export PF_VERIF="$VERIF"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
BIN="$CARGO_TARGET_DIR/release/pf"

# Cargo decides by modification times; a changed tree with older times must be rebuilt as well.
build() {
    local stamp="$CARGO_TARGET_DIR/repo.sha256" now
    mkdir -p "$CARGO_TARGET_DIR"
    now=$(cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | LC_ALL=C sort -z |
        xargs -0 sha256sum | sha256sum)
    if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
        rm -f "$stamp"
        (cd harness && cargo clean --release --offline --quiet -p protofish -p pf-harness) >/dev/null 2>&1
    fi
    local log="$CARGO_TARGET_DIR/build.log"
    if ! (cd harness && cargo build --release --offline --quiet) >"$log" 2>&1; then
        echo "the harness does not build against /repo:" >&2
        grep -A 15 '^error' "$log" | head -60 >&2
        exit 2
    fi
    printf '%s' "$now" >"$stamp"
}

# Thorough runs go on with a coverage guided search over the same choices, for the properties
# whose verdict does not depend on time and memory. Without a nightly toolchain it is left out.
fuzz() {
    local id=$1 seconds=${PF_FUZZ_SECONDS:-180} target="$VERIF/harness/fuzz/target"
    case " C02 C22 C26 C28 " in *" $id "*) return 0 ;; esac
    # (Quick to notice that nothing changed; a first build takes some minutes.)
    if ! RUSTFLAGS="-A bindings_with_variant_name" CARGO_TARGET_DIR="$target" \
        cargo +nightly fuzz build --fuzz-dir harness/fuzz --target-dir "$target" -s none tape \
        >"$PF_WORK/fuzz-build.log" 2>&1; then
        echo "# no coverage guided search: $(grep -m1 '^error' "$PF_WORK/fuzz-build.log")"
        return 0
    fi
    local bin="$target/x86_64-unknown-linux-gnu/release/tape"
    mkdir -p "$PF_WORK/corpus" "$PF_WORK/crash"
    "$BIN" seeds "$id" 300 "$PF_WORK/corpus" || return 2
    PF_FUZZ="$id" "$bin" -fork=8 -max_len=4096 -len_control=20 -timeout=60 -rss_limit_mb=3000 \
        -max_total_time="$seconds" -seed=$((${VERIF_SEED:-1} + 1)) \
        -artifact_prefix="$PF_WORK/crash/" "$PF_WORK/corpus" >"$PF_WORK/fuzz.log" 2>&1
    local runs
    runs=$(grep -E '^#[0-9]+: cov' "$PF_WORK/fuzz.log" | tail -1)
    echo "# coverage guided: ${runs:-no progress}"
    sed -i "s|\"note\": \"\"|\"note\": \"coverage guided search afterwards: ${runs:-no progress}\"|" \
        "evidence/$id.json"
    local f code=0
    for f in "$PF_WORK"/crash/*; do
        [ -f "$f" ] || continue
        case "$f" in */slow-unit-*|*/oom-*) continue ;; esac
        "$BIN" found "$id" "$f"
        code=$?
        [ $code = 0 ] || break
    done
    return $code
}

case "${1:-}" in
setup)
    build
    ;;
replay)
    [ -f "${2:-}" ] || { echo "usage: run.sh replay <file>" >&2; exit 2; }
    build
    exec "$BIN" replay "$2"
    ;;
C[0-9][0-9])
    build
    PF_WORK=$(mktemp -d) || exit 2
    export PF_WORK
    "$BIN" run "$1"
    code=$?
    if [ $code = 0 ] && [ "${VERIF_TIER:-quick}" = thorough ]; then
        fuzz "$1"
        code=$?
    fi
    rm -rf "$PF_WORK"
    exit $code
    ;;
*)
    echo "usage: run.sh setup | <property id> | replay <file>" >&2
    exit 2
    ;;
esac
