#!/bin/bash
# tryseed.sh <id>...: in a scratch copy: builds, runs the stable tests and the demo with and without the patch; then runs the check
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/ts.XXXXXX)
  cp -a /repo $w/repo; rm -rf $w/repo/_build
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -r $d $w/demo; rm -f $w/demo/patch.diff $w/demo/meta.json
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/d0.log 2>&1); a=$?
  (cd $w/repo && git apply $d/patch.diff) || echo "$id: patch does not apply"
  if [ -z "$SKIPTESTS" ]; then
  sed "s#/repo#$w/repo#g" /opt/vp/build.sh > $w/build.sh; sed "s#/repo#$w/repo#g" /opt/vp/test.sh > $w/test.sh
  (cd $w/repo && bash $w/build.sh >$w/b.log 2>&1); b=$?
  (cd $w/repo && bash $w/test.sh $w/o.json >$w/t.log 2>&1)
  miss=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
try:
    o=set(json.load(open('$w/o.json'))['passed']); print(sorted(b-o))
except Exception as e: print('no result',e)
P
)
  fi
  (cd $w/repo && timeout 300 bash $w/demo/demo.sh >$w/d1.log 2>&1); c=$?
  if [ -z "$SKIPCHECK" ]; then
  r=$(cd /verif && VERIF_REPO=$w/repo timeout 900 python3-vt vcg/check.py $prop 2>&1 | grep -E "^VIOLATION|^failed|^failing|obligations" | cut -c1-220 | tail -6); fi
  echo "== $id prop=$prop demo(clean)=$a build=$b missing=$miss demo(bug)=$c"; echo "$r"
  [ -n "$KEEP" ] && echo $w || rm -rf "$w"
done
