#!/bin/bash
# tryseed.sh ID...: in a scratch copy of /repo, apply the planted change, run
# the tests, the demo, and the property's quick check (by hand only)
V=$(cd "$(dirname "$0")/.." && pwd)
S=${SCRATCH:-/tmp/seedtest}; mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
for id in "$@"; do
  D=$V/seeded/$id
  git -C $S/repo checkout -q -- . ; git -C $S/repo fetch -q /repo HEAD && git -C $S/repo checkout -q FETCH_HEAD
  ( cd $S/repo
    bash $D/demo.sh > $S/$id.clean 2>&1 || echo "$id: DEMO FAILS ON CLEAN"
    git apply $D/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash $D/demo.sh > $S/$id.bug 2>&1 && echo "$id: DEMO PASSES ON BUG"
    grep -q "^error" $S/$id.bug && echo "$id: demo compile error?"
    if [ -z "$NOTEST" ]; then
    for f in "" "--no-default-features" "--features experimental_pointer_ranges"; do
      RUSTFLAGS="-A dangerous_implicit_autorefs" RUSTUP_TOOLCHAIN=stable timeout 300 cargo test --offline $f --target-dir $S/target > $S/$id.test 2>&1; grep -E "^test .*FAILED$|^error.E" $S/$id.test | grep -qv macro_utils && { echo "$id: TESTS FAIL ($f): $(grep -E '^test .*FAILED$|^error.E' $S/$id.test | grep -v macro_utils | head -3 | tr '\n' ';')"; }
    done; fi )
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  VX_REPO=$S/repo python3 $V/check.py $P quick > $S/$id.check 2>&1; echo "$id: exit $? $(grep -E 'VIOLATION' $S/$id.check | head -2)"
done
git -C $S/repo checkout -q -- .
