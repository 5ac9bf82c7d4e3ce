#!/bin/bash
# try_seed.sh ID...: confirm a planted bug (applies, builds, passes the stable tests, demo) and run its property's check.
cd /verif
for id in "$@"; do
	s=/verif/seeded/$id; log=/tmp/vl/seed.$id; mkdir -p /tmp/vl
	prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $s/meta.json)
	git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
	bash /opt/vp/build.sh >$log.build0 2>&1 || echo "$id: clean build failed"
	(cd /repo && timeout 300 bash $s/demo.sh) >$log.demo0 2>&1; c=$?
	git -C /repo apply $s/patch.diff || { echo "$id: does not apply"; continue; }
	bash /opt/vp/test.sh /tmp/vl/seed.$id.json >$log.test 2>&1
	t=$(python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/vl/seed.%s.json'%sys.argv[1]))
st=b.get('stable') or b.get('passed') or b
bad=[x for x in st if x not in r['passed']]
print('tests-ok' if not bad else 'TESTS-FAIL %d %s'%(len(bad),bad[:3]))
P
)
	(cd /repo && timeout 300 bash $s/demo.sh) >$log.demo1 2>&1; b=$?
	if [ -z "$NOCHECK" ]; then
		s0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $prop >$log.check 2>&1; r=$?; s1=$(date +%s)
		v=$(grep -m1 VIOLATION $log.check)
	fi
	git -C /repo checkout -- .
	echo "$id [$prop]: $t demo clean=$c patched=$b check=$r ($((s1-s0))s) $v"
done
bash /opt/vp/build.sh >/tmp/vl/build.last 2>&1
