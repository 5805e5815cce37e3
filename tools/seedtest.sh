#!/bin/bash
# seedtest.sh ID...: validates planted changes in a scratch clone (/tmp/srepo): demo passes without, builds, stable tests pass,
# demo fails with; then runs the property's quick check against the changed tree.
set -u
S=/tmp/srepo
V=$(cd "$(dirname "$0")/.." && pwd)
[ -d $S ] || git clone -q /repo $S
cd $S && git fetch -q && git checkout -qf origin/HEAD 2>/dev/null; git reset -q --hard "$(git -C /repo rev-parse HEAD)"
bld() { CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DPLATFORM_POSIX=TRUE -DCMAKE_BUILD_TYPE=Debug -DGOOGLETEST_ROOT=/usr/src/googletest -DCMAKE_CXX_FLAGS=-Wno-overloaded-virtual >/tmp/seed.cmake.log 2>&1 && ninja -C _build -j8 all stingraykit-hello-world stingraykit-test >/tmp/seed.build.log 2>&1; }
for id in "$@"; do
	d=$V/seeded/$id
	git reset -q --hard; bld || { echo "$id: base build failed"; continue; }
	mkdir -p /tmp/seeddemo; cp -r $d /tmp/seeddemo/; rm -f /tmp/seeddemo/$id/*.diff /tmp/seeddemo/$id/meta.json
	timeout 300 bash /tmp/seeddemo/$id/demo.sh >/tmp/seed.demo0.log 2>&1; r=$?
	[ $r = 0 ] || { echo "$id: demo fails on the unchanged tree ($r)"; tail -5 /tmp/seed.demo0.log; continue; }
	git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	bld || { echo "$id: does not build"; tail -20 /tmp/seed.build.log; continue; }
	timeout 300 bash /tmp/seeddemo/$id/demo.sh >/tmp/seed.demo1.log 2>&1; r=$?
	[ $r != 0 ] || { echo "$id: demo passes with the change"; continue; }
	echo "$id: demo exit with change: $r: $(tail -1 /tmp/seed.demo1.log | cut -c1-150)"
	if [ -z "${NOTEST:-}" ]; then
		rm -rf /tmp/seed.rep; mkdir /tmp/seed.rep
		python3 /opt/vp/run_gtests.py $S/_build/build/stingraykit-test /tmp/seed.rep >/dev/null 2>&1
		python3 /opt/vp/results.py /tmp/seed.json "junit:/tmp/seed.rep/*.xml" >/dev/null
		python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed.json'))['passed'])
print('$id: stable tests failing:', sorted(b-p)[:5], len(b-p))"
	fi
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	for q in $p ${ALSO:-}; do
		SIM_REPO=$S SIM_BUILD=/tmp/sbuild VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 $V/check.py $q --tier quick > /tmp/seed.check.log 2>&1; r=$?
		echo "$id: check $q exit $r: $(grep -m1 VIOLATION /tmp/seed.check.log)"
	done
done
git reset -q --hard
