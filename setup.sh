#!/bin/bash
# Builds the harness from the committed files and /repo's working tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/tools/lib.sh"
mkdir -p "$here/evidence"
(build plain) || exit 1
# The instrumented builds are needed by C23 only, which builds what is missing itself
for v in asan tsan msan; do
    (build $v) || echo "setup: no $v build" >&2
done
for v in miri miri32 miribe; do
    (build $v) || echo "setup: no $v build" >&2
done
exit 0
