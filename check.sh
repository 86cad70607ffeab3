#!/bin/bash
# check.sh <property> [quick|thorough]      runs the monitors of one property
# check.sh --replay <file>                  runs one recorded case again, printing its operations
# Exit status: 0 held, 1 violated (with a VIOLATION line), 2 no answer (build failure, broken harness).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/tools/lib.sh"
if [ "${1:-}" = --replay ]; then
    if grep -q '^command=' "$2"; then
        # From one of the sanitizers
        cd "$here" && eval "$(sed -n 's/^command=//p' "$2" | head -1)"
        exit
    fi
    (build plain) || exit 2
    variant_env plain
    exec "$zv" --replay "$2"
fi
id="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
(build plain) || exit 2
variant_env plain
export ZV_EVIDENCE_DIR="${ZV_EVIDENCE_DIR:-$here/evidence}"
mkdir -p "$ZV_EVIDENCE_DIR"
rm -f "$ZV_EVIDENCE_DIR/$id.json"
"$zv" "$id" "$tier"
rc=$?
case $rc in 132|134|135|136|139)
    # The whole process went down: abort (a panic while panicking, a failed check in the standard
    # library), stack overflow, invalid access. The harness itself never does that.
    replay="$ZV_EVIDENCE_DIR/replay-$id-crash.txt"
    printf 'property=%s\ncommand=VERIF_SEED=%s bash check.sh %s %s\nThe process of the check died with status %s.\n' "$id" "${VERIF_SEED:-1}" "$id" "$tier" "$rc" >"$replay"
    echo "VIOLATION property=$id replay=$replay"
    exit 1;;
esac
case $rc in 0|1) ;; *) echo "check of $id: no answer (status $rc)" >&2; exit 2;; esac
if [ $rc = 0 ] && [ -e "$here/tools/extra-$id.sh" ]; then
    bash "$here/tools/extra-$id.sh" "$tier"
    rc=$?
fi
exit $rc
