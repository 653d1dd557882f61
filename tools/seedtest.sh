#!/bin/bash
# seedtest.sh ID [check...]: does the planted change build, pass the tests, fail its demo; which checks see it?
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; shift
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
D=$(mktemp -d /tmp/dd.XXXXXX); cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
(cd /repo && $D/demo.sh >$D/clean.log 2>&1); c=$?
git -C /repo apply $S/patch.diff || { echo "does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >$D/build.log 2>&1; b=$?
bash /opt/vp/test.sh $D/out.json >$D/test.log 2>&1
t=$(python3 -c "
import json;o=json.load(open('$D/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(sorted(set(b['stable'])-set(o['passed'])))")
(cd /repo && $D/demo.sh >$D/patched.log 2>&1); d=$?
echo "$(basename $S): build=$b broken_tests=$t demo clean=$c patched=$d"
[ $c = 0 ] || tail -5 $D/clean.log
grep -h "panicked" -A1 $D/patched.log | head -3; grep -h "^error" -A6 $D/patched.log | head
for p in ${@:-$P}; do
  $V/run_check.sh $p quick >$D/check.log 2>&1; r=$?
  echo "   $p rc=$r $(grep -c "^VIOLATION property=$p " $D/check.log) $(grep '  scenario' $D/check.log | cut -c1-200)"
done
