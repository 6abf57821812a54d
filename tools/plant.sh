#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy of /repo (/tmp/plant), then run the property's
# check against each, applied to /repo and undone straight afterwards.
# Option: NOCHECK=1 confirm only; NOCONFIRM=1 only run the check; ALSO="C02 C05" further checks.
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/plant
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTC_WRAPPER=
for id in "$@"; do
  d=$V/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  if [ -z "$NOCONFIRM" ]; then
    if [ -d $W ]; then
      git -C $W checkout -q -- . && git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
    else
      cp -a /repo $W
    fi
    cd $W
    bash $d/demo.sh >/tmp/plant.demo0 2>&1; a=$?
    git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
    cargo test --workspace --all-features --no-run --offline >/tmp/plant.build 2>&1 || { echo "$id: does not build"; tail -20 /tmp/plant.build; continue; }
    mkdir -p target; timeout 800 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > target/vp-test.log 2>&1
    python3 /opt/vp/results.py /tmp/plant.json cargo:$W/target/vp-test.log >/dev/null
    miss=$(python3 - <<'PY'
import json
o=json.load(open('/tmp/plant.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=set()
for k in ('passed','stable','tests','pass'):
    if k in b: s=set(b[k]); break
print(sorted(s-set(o['passed']))[:5])
PY
)
    bash $d/demo.sh >/tmp/plant.demo1 2>&1; c=$?
    git checkout -q -- .
    ok=BAD; [ $a = 0 ] && [ $c != 0 ] && [ "$miss" = "[]" ] && ok=ok
    echo "$id: $ok demo clean=$a patched=$c missing tests=$miss"
    [ $ok = BAD ] && { tail -5 /tmp/plant.demo0; echo ---; tail -5 /tmp/plant.demo1; }
  fi
  [ -n "$NOCHECK" ] && continue
  git -C /repo apply $d/patch.diff || continue
  for p in $prop $ALSO; do
    s=$(date +%s)
    $V/run.sh $p ${TIER:-quick} >/tmp/plant.check 2>&1; rc=$?
    echo "$id: check $p rc=$rc $(( $(date +%s)-s ))s: $(grep -m1 VIOLATION /tmp/plant.check | cut -c1-100) $(grep -v "VIOLATION\|warning" /tmp/plant.check | head -1 | cut -c1-${W2:-250})"
  done
  git -C /repo checkout -q -- .
done
