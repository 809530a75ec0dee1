#!/bin/bash
# tries planted bugs, each in a private copy of /repo bound over /repo in a namespace of its own:
#   tools/seedtest.sh [--notests] ID...
notests=; [ "$1" = --notests ] && { notests=1; shift; }
one() {
  id=$1; d=/verif/seeded/$id; w=/tmp/seed-$id
  rm -rf "$w"; cp -a /repo "$w"; mkdir -p /tmp/seedlog
  ( cd "$w" && git apply "$d/patch.diff" ) || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; return; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  log=/tmp/seedlog/$id
  clean=$(cd /repo && timeout 300 bash $d/demo.sh >$log.clean 2>&1; echo $?)
  res=$(unshare -Urm bash -c "mount --bind $w /repo; cd /repo; bash /opt/vp/build.sh >$log.build 2>&1; b=\$?; timeout 300 bash $d/demo.sh >$log.demo 2>&1; dm=\$?; \
    cd /verif; SYMX_EVIDENCE_DIR=/tmp/seedlog/ev-$id timeout 900 ./run.sh $prop >$log.check 2>&1; c=\$?; [ -n '$notests' ] || bash /opt/vp/test.sh $log.json >$log.tests 2>&1; echo \$b \$dm \$c")
  set -- $res
  t=skipped
  [ -n "$notests" ] || t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('$log.json'));m=sorted(b-set(o['passed']));print('ok' if not m else 'FAIL '+','.join(m)[:200])")
  caught=missed; [ "$3" = 1 ] && grep -q "VIOLATION property=$prop" $log.check && caught=CAUGHT
  echo "$id ($prop): build=$1 demo clean=$clean patched=$2 tests=$t check=$3 $caught"
  rm -rf "$w"
}
export -f one; export notests
printf '%s\n' "$@" | xargs -P ${JOBS:-4} -I{} bash -c 'one {}'
