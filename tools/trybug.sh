#!/bin/bash
# trybug.sh ID [--notest]: plants /verif/seeded/ID in a scratch copy of /repo, confirms that it builds,
# passes the tests, that the demonstration tells it apart, and runs the property's quick check on it.
ID=$1; S=/verif/seeded/$ID; W=/tmp/bugwt-$ID
PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; cp -a /repo "$W"
sed "s#/repo#$W#g" /opt/vp/setup_parallel.py > $W/.setup_parallel.py
sed "s#/repo#$W#g; s#/opt/vp/setup_parallel.py#$W/.setup_parallel.py#" /opt/vp/build.sh > $W/.build.sh
sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/.build.sh#; s#/opt/vp/reports#$W/.reports#" /opt/vp/test.sh > $W/.test.sh
cd $W
if [ -z "$NODEMO" ]; then
  (timeout 300 bash $S/demo.sh > /tmp/bugs/$ID.demo0 2>&1); D0=$?
fi
git apply $S/patch.diff || { echo "$ID: PATCH FAILS"; exit 1; }
bash $W/.build.sh > /tmp/bugs/$ID.build 2>&1 || { echo "$ID: BUILD FAILS"; grep -m3 'error:' /tmp/bugs/$ID.build; tail -2 /tmp/bugs/$ID.build | cut -c1-200; exit 1; }
if [ -z "$NODEMO" ]; then (cd $W; timeout 300 bash $S/demo.sh > /tmp/bugs/$ID.demo1 2>&1); D1=$?; fi
T=skipped
if [ "$2" != "--notest" ]; then bash $W/.test.sh $W/.out.json > /tmp/bugs/$ID.test 2>&1; T=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/.out.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
base=set(base) if not isinstance(base,dict) else set(base)
print('%d missing of %d'%(len(base-set(o['passed'])),len(base)))
P
); fi
cd /verif
SIM_REPO=$W SIM_BUILD=/tmp/bugb-$ID python3 sim/check.py $PROP --tier quick > /tmp/bugs/$ID.check 2>&1; C=$?
rm -rf /tmp/bugb-$ID $W
echo "$ID ($PROP): demo clean=$D0 patched=$D1 tests: $T check exit=$C $(grep -m1 'class=' /tmp/bugs/$ID.check | cut -c1-150) $(grep -o 'run=[0-9.]*s' /tmp/bugs/$ID.check)"
