#!/bin/bash
# tools/seedtest.sh [-t] [-c] ID...   try planted bugs in a scratch copy of /repo
#  default: apply, build, run demo (must fail), and demo on the unpatched build (must pass); -t also the test suite; -c also the quick check
T=0; C=0; while [[ $1 == -* ]]; do [[ $1 == -t ]] && T=1; [[ $1 == -c ]] && C=1; shift; done
for id in "$@"; do
  W=$(mktemp -d /tmp/seedw.XXXXXX); R=$W/repo; D=/verif/seeded/$id
  rsync -a --exclude=/_build /repo/ $R/
  mkdir -p $W/vp; for f in /opt/vp/*; do [ -f $f ] && sed "s#/repo#$R#g; s#/opt/vp#$W/vp#g" $f > $W/vp/$(basename $f); done; cp -r /opt/vp/expected $W/vp/ 2>/dev/null
  bld(){ (cd $R && bash $W/vp/build.sh) > $W/build.log 2>&1; }
  res="$id:"
  if [ -z "$NOBASE" ]; then bld || res="$res BASEBUILDFAIL"; (cd $R && timeout 300 bash $D/demo.sh) > $W/demo0.log 2>&1; rc=$?; [ $rc = 0 ] && res="$res demo-base-ok" || { res="$res DEMO-BASE-FAILS($rc)"; tail -5 $W/demo0.log; }; fi
  (cd $R && git apply $D/patch.diff) || res="$res APPLYFAIL"
  bld || { res="$res BUILDFAIL"; tail -5 $W/build.log; }
  (cd $R && timeout 300 bash $D/demo.sh) > $W/demo1.log 2>&1; rc=$?; [ $rc != 0 ] && res="$res demo-bug-fails($rc: $(grep FAIL $W/demo1.log | tail -1 | cut -c1-120))" || res="$res DEMO-BUG-PASSES"
  if [ $T = 1 ]; then bash $W/vp/test.sh $W/out.json > $W/test.log 2>&1; res="$res tests:$(python3 -c "
import json;o=json.load(open('$W/out.json'));b=json.load(open('/opt/vp/BASELINE.json'));
s=b.get('stable') or b.get('passed') or b; s=[x if isinstance(x,str) else x.get('id') for x in s]; m=[x for x in s if x not in o['passed']]; print('ok' if not m else 'MISSING %s'%m[:3])")"; fi
  if [ $C = 1 ]; then p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])"); NBSPSIM_REPO=$R python3 /verif/checks/run.py $p > $W/check.log 2>&1; rc=$?; res="$res check=$rc $(grep -m1 VIOLATION $W/check.log | cut -c1-60) $(grep -m1 -o 'class=[a-z-]*\|violation class.*' $W/check.log)"; fi
  echo "$res"; rm -rf "$W"
done
