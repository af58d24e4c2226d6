#!/bin/bash
# usage: seedtest.sh ID [tier]  -- confirm a planted bug against /repo and see whether its property's check reports it
# (development aid; no registered check uses it)
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
cp -a "$d" /tmp/seeddemo_$1
bash /tmp/seeddemo_$1/demo.sh >/tmp/seeddemo_$1/out0 2>&1; c0=$?
git apply "$d/patch.diff" || { echo "no apply"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
bash /tmp/seeddemo_$1/demo.sh >/tmp/seeddemo_$1/out1 2>&1; c1=$?
t=-; if [ "$3" != notest ]; then
bash /opt/vp/test.sh /tmp/seeddemo_$1/t.json >/dev/null 2>&1
t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seeddemo_$1/t.json'))
st=b['stable']

pa=o['passed']
print(len(set(st)-set(pa)))
P
); fi
cd /verif && out=$(./check.sh $p ${2:-quick} 2>&1); rc=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$1 $p: build=$b demo clean=$c0 patched=$c1 stable tests lost=$t check rc=$rc $(echo "$out" | grep -c VIOLATION) mechanisms"
[ $c0 != 0 ] && tail -3 /tmp/seeddemo_$1/out0
[ $c1 == 0 ] && tail -3 /tmp/seeddemo_$1/out1
echo "$out" | grep -v VIOLATION | tail -3 | cut -c1-200
cd / ; rm -rf "/tmp/seeddemo_$1"
