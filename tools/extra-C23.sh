#!/bin/bash
# The cases of C23 under AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri.
# Runs after the plain run has passed; one instrumented build at a time, the runs at the same time.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
. "$here/tools/lib.sh"
tier="${1:-quick}"
seed="${VERIF_SEED:-1}"
ev="${ZV_EVIDENCE_DIR:-$here/evidence}"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
if [ "$tier" = thorough ]; then
    budget=160 scale=0.2 miri_scale=0.0004 miri_budget=300
else
    budget=45 scale=0.1 miri_scale=0.00006 miri_budget=110
fi
export ASAN_OPTIONS="exitcode=66:detect_leaks=1:abort_on_error=0"
export MSAN_OPTIONS="exit_code=66"
export TSAN_OPTIONS="exitcode=66:halt_on_error=1"

# one <name> <command...>: runs, remembers status
run_in() {
    local name="$1"
    shift
    mkdir -p "$out/$name"
    (cd "$out/$name" && ZV_EVIDENCE_DIR="$out/$name" "$@" >"$out/$name/log" 2>&1; echo $? >"$out/$name/rc")
}

names=()
for v in asan msan tsan; do
    (build $v) || exit 2
    names+=($v)
done
(build miri) || exit 2
# Miri as a machine of 32 bits, and one with the other byte order
foreign=()
for v in miri32 miribe; do
    if (build $v) 2>/dev/null; then foreign+=($v); else echo "C23: no $v build, left out" >&2; fi
done
for v in asan msan tsan; do
    variant_env $v
    ZV_BUDGET_S=$budget ZV_SCALE=$scale run_in $v "$zv" C23 "$tier" 
done
for i in 0 1 2 3 4 5 6 7; do
    variant=miri
    [ $i = 6 ] && variant=${foreign[0]:-miri}
    [ $i = 7 ] && variant=${foreign[1]:-miri}
    [ $variant = miri ] && n=miri$i || n=$variant
    names+=($n)
    flags="-Zmiri-disable-isolation -Zmiri-seed=$i"
    [ $((i % 2)) = 1 ] && flags="$flags -Zmiri-tree-borrows"
    [ $((i % 4)) -ge 2 ] && flags="$flags -Zmiri-symbolic-alignment-check"
    (
        variant_env $variant
        export MIRIFLAGS="$flags" VERIF_SEED=$((seed * 1000 + i)) ZV_BUDGET_S=$miri_budget ZV_SCALE=$miri_scale
        mkdir -p "$out/$n"
        cd "$here/harness" &&
            ZV_EVIDENCE_DIR="$out/$n" "${cargo_cmd[@]}" "${build_args[@]}" C23 "$tier" >"$out/$n/log" 2>&1
        echo $? >"$out/$n/rc"
    ) &
done
wait
status=0
for n in "${names[@]}"; do
    rc="$(cat "$out/$n/rc" 2>/dev/null || echo none)"
    log="$out/$n/log"
    if [ "$rc" = 0 ]; then continue; fi
    if grep -qE "ERROR: (Address|Leak)Sanitizer|WARNING: (Memory|Thread)Sanitizer|SUMMARY: |error: Undefined Behavior|Data race detected|error: memory leaked|error: abnormal termination|stack-overflow" "$log" || grep -q "^VIOLATION property=C23" "$log"; then
        replay="$ev/replay-C23-$n.txt"
        {
            echo "property=C23"
            echo "command=VERIF_SEED=$seed bash tools/extra-C23.sh $tier"
            echo "instrumented run: $n, status $rc"
            tail -c 20000 "$log"
        } >"$replay"
        grep -E "^  [a-z_]+#|Sanitizer|Undefined Behavior|Data race" "$log" | head -5
        echo "VIOLATION property=C23 replay=$replay"
        status=1
    else
        echo "HARNESS-ERROR instrumented run $n ended with status $rc" >&2
        tail -15 "$log" >&2
        [ $status = 0 ] && status=2
    fi
done
python3 "$here/tools/merge_c23.py" "$ev/C23.json" "$out" "${names[@]}" $status
exit $status
