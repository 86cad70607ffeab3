#!/bin/bash
# seedcheck.sh <folder of a planted bug> [checks...]   (development tool)
# In a scratch copy: the patch applies, builds, passes the stable tests, the demo fails with it and
# passes without it; then runs the check of its property (or those given) against the copy.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
bug="$(cd "$1" && pwd)"; shift
base="${SEED_DIR:-/tmp/seed}"
export CARGO_NET_OFFLINE=true
mkdir -p "$base"
if [ ! -d "$base/repo/target" ]; then cp -a /repo "$base/repo"; fi
rsync -a --delete --exclude target --exclude .git /repo/ "$base/repo/" 2>/dev/null || { rm -rf "$base/repo/src"; cp -a /repo/src "$base/repo/src"; }
find "$base/repo/src" -name '*.rs' -exec touch {} +
demo() { (cd "$base/repo" && timeout 300 bash "$bug/demo.sh" >"$base/demo.log" 2>&1); echo $?; }
prop="$(python3 -c "import json;print(json.load(open('$bug/meta.json'))['property'])")"
if [ "${SKIP_TESTS:-}" = "" ]; then
    c=$(demo); [ "$c" = 0 ] || { echo "BAD demo fails on the unchanged tree ($c)"; tail -20 "$base/demo.log"; exit 1; }
fi
(cd "$base/repo" && patch -p1 -s <"$bug/patch.diff") || { echo "BAD patch"; exit 1; }
find "$base/repo/src" -name '*.rs' -exec touch {} +
if [ "${SKIP_TESTS:-}" = "" ]; then
    sed "s#cd /repo#cd $base/repo#" /opt/vp/test.sh >"$base/test.sh"
    bash "$base/test.sh" "$base/out.json" >"$base/test.log" 2>&1
    python3 - "$base/out.json" <<'P' || { echo "BAD tests"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    for k in ("passed","pass","stable"):
        if k in x: return set(x[k])
    return {t for t,v in x.get("tests",x).items() if v in ("pass","passed","ok",True)}
m=passed(b)-passed(o)
print("tests failing:",sorted(m)[:10],len(passed(o)))
sys.exit(bool(m))
P
    c=$(demo); [ "$c" != 0 ] || { echo "BAD demo passes with the patch"; exit 1; }
    echo "demo with patch: $c: $(tail -3 "$base/demo.log" | head -2)"
fi
rm -rf "$base/h/src"; mkdir -p "$base/h"; cp -a "$here/harness/src" "$base/h/src"; cp "$here/harness/Cargo.lock" "$base/h/"; cp "$here/KNOWN_FINDINGS" "$base/"
sed 's#path = "/repo"#path = "../repo"#' "$here/harness/Cargo.toml" >"$base/h/Cargo.toml"
(cd "$base/h" && cargo build --release --offline >"$base/build.log" 2>&1) || { tail -20 "$base/build.log"; echo "BAD harness build"; exit 1; }
for c in ${@:-$prop}; do
    (cd "$base" && ZV_EVIDENCE_DIR="$base" timeout 900 h/target/release/zv "$c" quick >"$base/check.log" 2>&1); rc=$?
    echo "$(basename "$bug") $c rc=$rc $(grep -E '^  [a-z_]+#|VIOLATION|HARNESS' "$base/check.log" | head -2 | cut -c1-220 | tr '\n' ' ')"
done
