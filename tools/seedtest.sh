#!/bin/bash
# seedtest.sh ID [check PROP...] : validates a planted bug in a private copy bound over /repo (own mount namespace);
# with "check", runs the named checks against it instead of the tests
id=$1; shift
mode=${1:-test}; [ $# -gt 0 ] && shift
d=/tmp/seedtest.$id.$$
mkdir -p $d
cp -a /repo $d/repo
git -C $d/repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf $d; exit 2; }
if [ "$mode" = test ]; then
  bash /verif/seeded/$id/demo.sh > $d/demo0.log 2>&1; c=$?
  unshare -Urm bash -c "mount --bind $d/repo /repo && bash /opt/vp/test.sh $d/out.json > $d/test.log 2>&1; bash /verif/seeded/$id/demo.sh > $d/demo1.log 2>&1; echo \$? > $d/rc"
  python3 - "$id" "$c" "$(cat $d/rc)" $d/out.json <<'P'
import sys, json
b = json.load(open('/opt/vp/BASELINE.json'))
base = set(b['stable'])
o = json.load(open(sys.argv[4]))
miss = sorted(base - set(o['passed']))
print('%s: demo clean=%s patched=%s; baseline tests failing: %s' % (sys.argv[1], sys.argv[2], sys.argv[3], miss[:6]))
print('   ', 'OK' if sys.argv[2] == '0' and sys.argv[3] != '0' and not miss else 'NOT USABLE')
P
  tail -2 $d/demo1.log
else
  for p in "$@"; do
    unshare -Urm bash -c "mount --bind $d/repo /repo && cp -a /verif $d/verif && rm -rf $d/verif/seeded && mount --bind $d/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p quick" > $d/$p.log 2>&1
    echo "$id $p exit=$? $(grep -m1 VIOLATION $d/$p.log | cut -c1-120) | $(grep -m1 'failed obligation' $d/$p.log | cut -c1-140) | $(tail -1 $d/$p.log | cut -c1-100)"
  done
fi
rm -rf $d
