#!/bin/bash
# seedcheck.sh ID...: does the planted bug count? (scratch copy; demo 0 without, nonzero with; tests pass with)
for id in "$@"; do
 s=/verif/seeded/$id; w=/tmp/seedw_$id; mkdir -p $w; cp -a /repo/. $w/
 ( cd $w && git apply --check $s/patch.diff ) || { echo "$id: patch does not apply"; rm -rf $w; continue; }
 d=/tmp/seedd_$id; mkdir -p $d; cp $s/* $d/; rm -f $d/*.diff $d/meta.json
 ( cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed_$id.0 2>&1 ); r0=$?
 ( cd $w && git apply $s/patch.diff && timeout 300 bash $d/demo.sh >/tmp/seed_$id.1 2>&1 ); r1=$?
 echo "$id demo: unchanged=$r0 patched=$r1 $(tail -1 /tmp/seed_$id.1 | cut -c1-150)"
 if [ -n "$T" ]; then
  # the tests run against /repo's tree
  git -C /repo apply $s/patch.diff && bash /opt/vp/build.sh >/tmp/seed_$id.b 2>&1; rb=$?; bash /opt/vp/test.sh /tmp/seed_$id.json >/dev/null 2>&1
  git -C /repo checkout -q -- .
  python3 - $id $rb <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_%s.json'%sys.argv[1]))
def names(x): return set(x.get('passed', x.get('stable', [])) if isinstance(x,dict) else x)
st=set(b.get('stable') or b.get('passed') or b.get('tests') or [])
ps=set(r.get('passed') or [])
print('   build rc',sys.argv[2],'baseline',len(st),'lost',len(st-ps), sorted(st-ps)[:5])
P
 fi
 rm -rf $w $d
done
