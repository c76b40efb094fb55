#!/bin/bash
# Runs the monitors of one property against /repo's current working tree.
#   check.sh <property> [--tier quick|thorough] [--seed N] [--case K] [--cases N] [--scale F]
# Exit 0: held on everything observed. Exit 1 with a VIOLATION line: refuted.
# Exit 3: inconclusive (did not build, harness error, too little observed).
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
ID=${1:?property}
shift
ARGS=("$@")
HARNESS=$ROOT/harness
OUT=$ROOT/target
export MON_EVIDENCE_DIR=$ROOT/evidence MON_REPLAY_DIR=$ROOT/replays
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET 2>/dev/null
mkdir -p "$OUT" "$MON_EVIDENCE_DIR" "$MON_REPLAY_DIR"
MON_SCRATCH=$(mktemp -d /tmp/mon.XXXXXXXX) || exit 3
export MON_SCRATCH
trap 'rm -rf "$MON_SCRATCH"' EXIT

TIER=${VERIF_TIER:-quick}
SEED=${VERIF_SEED:-1}
SINGLE=
for ((i = 0; i < ${#ARGS[@]}; i++)); do
    case ${ARGS[i]} in
        --tier) TIER=${ARGS[i + 1]:-quick} ;;
        --seed) SEED=${ARGS[i + 1]:-1} ;;
        --case) SINGLE=1 ;;
    esac
done

# build <log name> <command...>: a tree that does not build is inconclusive
build() {
    local log=$MON_SCRATCH/build-$1.log
    shift
    if ! "$@" >"$log" 2>&1; then
        grep -A12 '^error' "$log" | head -60
        echo "$ID: INCONCLUSIVE: build failed"
        exit 3
    fi
}

# sanitizer_verdict <rc> <log> <pattern>: turns a sanitizer report into a violation
sanitizer_verdict() {
    local rc=$1 log=$2 pattern=$3
    if grep -q "$pattern" "$log"; then
        local replay=$MON_REPLAY_DIR/$ID-$SEED-$TIER-report.txt
        grep -A60 "$pattern" "$log" | head -200 >"$replay"
        grep -m1 "$pattern" "$log" | cut -c1-300
        grep -q '^VIOLATION' "$log" || echo "VIOLATION property=$ID replay=$replay"
        exit 1
    fi
    if [ "$rc" -eq 1 ] && grep -q '^VIOLATION' "$log"; then
        exit 1
    fi
    if [ "$rc" -ne 0 ]; then
        tail -20 "$log"
        echo "$ID: INCONCLUSIVE: the run ended with status $rc"
        exit 3
    fi
}

# run_mon <property> <args...>: a crash (abort, memory fault) inside the library refutes the property
BUILD=h
run_mon() {
    local log=$MON_SCRATCH/stderr.log rc
    "$OUT/$BUILD/release/mon" "$@" 2>"$log"
    rc=$?
    tail -c 20000 "$log" >&2
    case $rc in
        132 | 134 | 135 | 136 | 139)
            local c
            c=$(sed -n 's/^crashed in case \([0-9]*\)$/\1/p' "$log" | head -1)
            local replay=$MON_REPLAY_DIR/$ID-$SEED-$TIER-${c:-crash}.json
            printf '{"property":"%s","seed":%s,"tier":"%s","case":%s,"message":"the process was ended by signal %s","replay_cmd":"/verif/check.sh %s --seed %s --tier %s%s"}\n' \
                "$ID" "$SEED" "$TIER" "${c:-null}" $((rc - 128)) "$ID" "$SEED" "$TIER" "${c:+ --case $c}" >"$replay"
            echo "$ID: case ${c:-?} (seed $SEED, $TIER): the process was ended by signal $((rc - 128))"
            echo "VIOLATION property=$ID replay=$replay"
            return 1
            ;;
    esac
    return $rc
}

# the library as it is shipped, without debug assertions and overflow checks
PLAIN=(--config profile.release.package.rusty-chromaprint.debug-assertions=false
    --config profile.release.package.rusty-chromaprint.overflow-checks=false)
build_plain() {
    build plain env CARGO_TARGET_DIR="$OUT/plain" cargo build --release --offline --locked --manifest-path "$HARNESS/Cargo.toml" "${PLAIN[@]}"
}

build_harness() {
    build harness env CARGO_TARGET_DIR="$OUT/h" cargo build --release --offline --locked --manifest-path "$HARNESS/Cargo.toml"
}
build_tools() {
    build tools env CARGO_TARGET_DIR="$OUT/cli" cargo build --offline --locked --manifest-path /repo/Cargo.toml -p fpcalc -p compare \
        --config 'profile.dev.package.rustfft.opt-level=3' --config 'profile.dev.package.rubato.opt-level=3' \
        --config 'profile.dev.package.rusty-chromaprint.opt-level=3' --config 'profile.dev.debug="line-tables-only"'
    export MON_FPCALC=$OUT/cli/debug/fpcalc MON_COMPARE=$OUT/cli/debug/compare
}
build_asan() {
    build asan env CARGO_TARGET_DIR="$OUT/asan" RUSTFLAGS="-Zsanitizer=address" \
        cargo +nightly build --release --offline --locked --manifest-path "$HARNESS/Cargo.toml" --target x86_64-unknown-linux-gnu "${PLAIN[@]}"
}
build_tsan() {
    build tsan env CARGO_TARGET_DIR="$OUT/tsan" RUSTFLAGS="-Zsanitizer=thread" \
        cargo +nightly build --release --offline --locked --manifest-path "$HARNESS/Cargo.toml" -Zbuild-std --target x86_64-unknown-linux-gnu
}
run_asan() { # <property> <args...>
    local log=$MON_SCRATCH/asan-$1.log
    ASAN_OPTIONS=detect_leaks=0:exitcode=99:halt_on_error=1:allocator_may_return_null=0 \
        "$OUT/asan/x86_64-unknown-linux-gnu/release/mon" "$@" >"$log" 2>&1
    local rc=$?
    grep -v '^ *#' "$log" | head -30 | cut -c1-700
    sanitizer_verdict $rc "$log" 'ERROR: AddressSanitizer'
}

case $ID in
    setup)
        cargo --version && cargo +nightly --version && cargo +nightly miri --version
        exit $?
        ;;
    C10)
        build_asan
        run_asan C10 "${ARGS[@]}"
        if [ "$TIER" = thorough ] && [ -z "$SINGLE" ]; then
            # the workloads of the other properties, for memory errors only
            for p in C02 C03 C04 C05 C07 C16 C18 C19 C22 C23 C25 C32; do
                MON_EVIDENCE_NAME=C10-$p MON_EVIDENCE_DIR=$MON_SCRATCH run_asan $p --seed "$SEED" --tier quick
            done
        fi
        if [ -z "$SINGLE" ]; then
            # Miri: several interpreters next to each other, a few small cases each
            build miri env CARGO_TARGET_DIR="$OUT/miri" MIRIFLAGS=-Zmiri-disable-isolation \
                cargo +nightly miri run --offline --locked --manifest-path "$HARNESS/Cargo.toml" -- list
            n=6 cases=4
            [ "$TIER" = thorough ] && n=8 cases=60
            pids=()
            for ((k = 0; k < n; k++)); do
                # (each with a scratch of its own for its evidence)
                mkdir -p "$MON_SCRATCH/miri$k"
                CARGO_TARGET_DIR=$OUT/miri MIRIFLAGS=-Zmiri-disable-isolation MON_THREADS=1 MON_EVIDENCE_DIR=$MON_SCRATCH/miri$k \
                    timeout 7200 cargo +nightly miri run -q --offline --locked --manifest-path "$HARNESS/Cargo.toml" -- \
                    C10 --seed $((SEED * 1000 + k)) --cases $cases >"$MON_SCRATCH/miri$k.log" 2>&1 &
                pids+=($!)
            done
            for ((k = 0; k < n; k++)); do
                wait "${pids[k]}"
                rc=$?
                grep '^C10' "$MON_SCRATCH/miri$k.log" | sed 's/^/miri: /' | cut -c1-400
                grep '^VIOLATION' "$MON_SCRATCH/miri$k.log"
                sanitizer_verdict $rc "$MON_SCRATCH/miri$k.log" 'error: Undefined Behavior'
            done
            python3 "$ROOT/merge_evidence.py" "$MON_EVIDENCE_DIR/C10.json" miri "$MON_SCRATCH"/miri*/C10.json
        fi
        exit 0
        ;;
    C11)
        build_harness
        run_mon C11 "${ARGS[@]}"
        rc=$?
        [ $rc -ne 0 ] && exit $rc
        if [ -z "$SINGLE" ]; then
            build_tsan
            log=$MON_SCRATCH/tsan.log
            mkdir -p "$MON_SCRATCH/tsan"
            MON_SMALL=1 MON_EVIDENCE_DIR=$MON_SCRATCH/tsan TSAN_OPTIONS=exitcode=99:halt_on_error=1 \
                "$OUT/tsan/x86_64-unknown-linux-gnu/release/mon" C11 "${ARGS[@]}" --scale 0.2 >"$log" 2>&1
            rc=$?
            sed 's/^C11/tsan: C11/' "$log" | grep -v '^ *#' | head -30 | cut -c1-700
            sanitizer_verdict $rc "$log" 'WARNING: ThreadSanitizer'
            python3 "$ROOT/merge_evidence.py" "$MON_EVIDENCE_DIR/C11.json" tsan "$MON_SCRATCH/tsan/C11.json"
        fi
        exit 0
        ;;
    C27 | C28 | C29 | C30 | C31 | C35)
        build_tools
        build_harness
        ;;
    C01 | C05 | C16 | C18 | C23 | C34)
        build_harness
        run_mon "$ID" "${ARGS[@]}"
        rc=$?
        [ $rc -ne 0 ] && exit $rc
        # again without the debug assertions, which may hide or contain something
        build_plain
        BUILD=plain
        mkdir -p "$MON_SCRATCH/plain"
        if [ -n "$SINGLE" ]; then
            run_mon "$ID" "${ARGS[@]}"
            exit $?
        fi
        MON_EVIDENCE_DIR=$MON_SCRATCH/plain run_mon "$ID" "${ARGS[@]}" --scale 0.3 >"$MON_SCRATCH/plain.log"
        rc=$?
        sed "s/^$ID/plain build: $ID/" "$MON_SCRATCH/plain.log"
        [ $rc -ne 0 ] && exit $rc
        python3 "$ROOT/merge_evidence.py" "$MON_EVIDENCE_DIR/$ID.json" plain "$MON_SCRATCH/plain/$ID.json"
        exit 0
        ;;
    *)
        build_harness
        ;;
esac
run_mon "$ID" "${ARGS[@]}"
exit $?
