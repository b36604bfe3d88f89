#!/bin/bash
# usage: detect.sh [bug ...]   runs each planted bug's check against a scratch copy
# (needs VERIF_SEED to be set for another seed); prints caught / MISSED.
H=${HB:-/tmp/hb}
here="$(cd "$(dirname "$0")/.." && pwd)"
rm -rf "$H/repo" "$H/verif/harness/src"; mkdir -p "$H/verif/harness" "$H/out"
cp -a /repo "$H/repo"
cp -a "$here/harness/." "$H/verif/harness/"
cp "$here/known-findings.txt" "$H/out/" 2>/dev/null
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
for b in "$@"; do
    git -C "$H/repo" checkout -q -- . && git -C "$H/repo" apply --whitespace=nowarn "$here/seeded/$b/patch.diff" || { echo "NOAPPLY $b"; continue; }
    p=${b%%-*}
    (cd "$H/verif/harness" && cargo build --release --offline >"$H/build.log" 2>&1) || { echo "NOBUILD $b"; continue; }
    s=$(date +%s)
    (cd "$H/verif/harness" && NSV_COV=${NSV_COV:-/nowhere} NSV_DIR="$H/out" VERIF_SEED=${VERIF_SEED:-1} timeout 900 target/release/nsv check $p >"$H/$b.log" 2>&1); rc=$?
    e=$(( $(date +%s) - s ))
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " "$H/$b.log"; then echo "caught $b rc=$rc ${e}s $(grep -m1 -i 'detail\|reason\|wrong' "$H/$b.log" | cut -c1-150)"; else echo "MISSED $b rc=$rc ${e}s $(tail -1 "$H/$b.log" | cut -c1-200)"; fi
done
git -C "$H/repo" checkout -q -- .
