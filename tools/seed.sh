#!/bin/bash
# usage: tools/seed.sh [--notest] ID...   try planted bugs in private mount namespaces: demo clean / demo patched / stable tests / check
notest=; [ "$1" = --notest ] && { notest=1; shift; }
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
  id=$1; s=$here/seeded/$id; w=$(mktemp -d /tmp/seed_XXXXXX)
  cp -a /repo "$w/repo"; mkdir "$w/verif" "$w/demo"; (cd "$here" && tar c --exclude=./seeded --exclude=./.git --exclude=./evidence .) | tar x -C "$w/verif"
  (cd "$s" && tar c --exclude='*.diff' --exclude=meta.json .) | tar x -C "$w/demo"
  prop=$(python3 -c "import json,sys; print(json.load(open('$s/meta.json'))['property'])")
  run() { unshare -m bash -c "mount --make-rprivate / && mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /repo && $1"; }
  run "timeout 300 bash $w/demo/demo.sh" > "$w/clean.log" 2>&1; c=$?
  git -C "$w/repo" apply "$s/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; return; }
  run "timeout 300 bash $w/demo/demo.sh" > "$w/bug.log" 2>&1; b=$?
  t=skipped
  if [ -z "$notest" ]; then
    run "bash /opt/vp/build.sh" > "$w/build.log" 2>&1 || echo "$id: BUILD FAILS"
    run "bash /opt/vp/test.sh $w/out.json" > "$w/test.log" 2>&1
    t=$(python3 - "$w/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
k=[x for x in ('stable','passed','pass','tests') if x in b]
want=set(b[k[0]]); got=set(o[[x for x in ('passed','pass') if x in o][0]])
print("tests-ok" if not want-got else f"TESTS-FAIL {sorted(want-got)[:3]}")
P
)
  fi
  run "cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run $prop" > "$w/check.log" 2>&1; k=$?
  echo "$id [$prop]: demo clean=$c patched=$b; $t; check exit=$k $(grep -m1 VIOLATION "$w/check.log" | cut -c1-60) :: $(grep -m1 -A1 VIOLATION "$w/check.log" | tail -1 | cut -c1-150)"
  [ $c = 0 ] || tail -5 "$w/clean.log"
  [ $k = 2 ] && tail -5 "$w/check.log"
  rm -rf "$w"
}
export -f one; export here notest
printf '%s\n' "$@" | xargs -P 3 -I{} bash -c 'one {}'
