#!/bin/bash
# usage: seedcheck.sh [-n] id...   (-n: do not run the checks)
# In a scratch copy of /repo: the planted bug applies, the tests pass, the demonstration passes before and fails after,
# and (unless -n) the check of its property is run against it.
here="$(cd "$(dirname "$0")/.." && pwd)"
nocheck=0; [ "$1" = "-n" ] && { nocheck=1; shift; }
for id in "$@"; do
  d=$here/seeded/$id
  w=$(mktemp -d /tmp/seedtree.XXXXXX)
  cp -a ${REPO:-/repo}/. "$w/"
  export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
  out="$id:"
  demo=$(mktemp -d /tmp/seeddemo.XXXXXX)
  cp "$d"/* "$demo"/; rm -f "$demo"/*.diff "$demo"/meta.json
  (cd "$w" && PYTHONPATH=$w/src timeout 300 bash "$demo/demo.sh" >/dev/null 2>&1); out="$out demo-clean=$?"
  if ! git -C "$w" apply "$d/patch.diff" 2>/tmp/applyerr; then out="$out APPLY-FAILED"; fi
  (cd "$w" && PYTHONPATH=$w/src /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x tests >$w.tests 2>&1) && out="$out tests=pass" || out="$out tests=FAIL($(grep -E 'passed|failed|error' $w.tests | tail -1))"
  (cd "$w" && PYTHONPATH=$w/src timeout 300 bash "$demo/demo.sh" >$w.demo 2>&1); out="$out demo-patched=$?"
  if [ $nocheck = 0 ]; then
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    for p in ${SEED_PROPS:-$prop}; do
      (cd "$here" && VERIF_ALLOW_SRC=1 VERIF_SRC=$w/src VERIF_EVID=/tmp/seedevid timeout 900 ./check.sh $p quick >/tmp/seedcheck.$p.out 2>&1); rc=$?
      out="$out $p:rc=$rc/$(grep -c ^VIOLATION /tmp/seedcheck.$p.out)"
    done
  fi
  echo "$out"
  rm -rf "$w" "$demo" "$w.tests" "$w.demo"
done
