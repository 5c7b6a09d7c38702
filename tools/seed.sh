#!/bin/bash
# seed.sh try ID...   confirm planted changes in a scratch copy: they build, pass the stable tests, and
#                     the demonstration passes without and fails with the change
# seed.sh run ID [CHECK...]  run the checks (default: the property of meta.json) against one, also in a copy
set -u
V=$(cd "$(dirname "$0")/.." && pwd); W=${SEED_DIR:-/tmp/seed}; mkdir -p "$W"
cmd=$1; shift
base() { # a clean copy of the repository
  if [ ! -d "$W/repo" ]; then cp -a /repo "$W/repo"; fi
  git -C "$W/repo" fetch -q /repo HEAD && git -C "$W/repo" reset -q --hard FETCH_HEAD
}
bld() { (cd "$W/repo" && touch src/*.rs src/cmds/*.rs && cargo build --offline --locked >"$W/build.log" 2>&1); }
tst() { (cd "$W/repo" && cargo test --offline --locked >"$W/test.log" 2>&1; grep -c '^test .* ok$' "$W/test.log"); }
demo() { rm -rf "${W:?}/demo"; mkdir "$W/demo"; cp -r "$V/seeded/$1/." "$W/demo/"; rm -f "$W/demo/"*.diff "$W/demo/meta.json"; (cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/demo.log" 2>&1); }
case $cmd in
try)
  for id in "$@"; do
    base
    bld && demo "$id"; d0=$?
    git -C "$W/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
    bld; b=$?; n=$(tst); demo "$id"; d1=$?
    echo "$id: build $b, tests $n, demo $d0 -> $d1 $([ $b = 0 ] && [ "$n" = 31 ] && [ $d0 = 0 ] && [ $d1 != 0 ] && echo GOOD || echo BAD)"
    base
  done;;
run)
  id=$1; shift
  base; git -C "$W/repo" apply "$V/seeded/$id/patch.diff" || exit 2
  mkdir -p "$W/verif"
  for d in build.sh check.sh explorer inject server known_findings.txt; do cp -a "$V/$d" "$W/verif/"; done
  [ -d "$W/verif/build" ] || cp -a "$V/build" "$W/verif/build"
  [ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  for c in "$@"; do
    s=$(date +%s); RIPCALC_REPO=$W/repo "$W/verif/check.sh" "$c" quick >"$W/out.log" 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$c " "$W/out.log")
    echo "$id $c rc=$rc violation=$v $(( $(date +%s)-s )) s  $(grep '^by:' "$W/out.log" | cut -c1-150)"
  done
  base;;
esac
