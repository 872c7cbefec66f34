#!/bin/bash
# seedtest.sh NAME... : builds, runs the suite, the demo and the property's check with the planted bug applied to /repo, and undoes it
for n in "$@"; do
	d=/verif/seeded/$n
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
	(cd /repo && bash $d/demo.sh >/tmp/seed/demo0 2>&1); d0=$?
	git -C /repo apply $d/patch.diff || { echo "$n: does not apply"; continue; }
	bash /opt/vp/build.sh >/tmp/seed/build 2>&1; b=$?
	bash /opt/vp/test.sh /tmp/seed/o.json >/tmp/seed/t 2>&1
	t=$(python3 - <<'P'
import json
def f(x): return {k for k,v in x.items() if v in('pass','passed',True)} if isinstance(x,dict) else set(x)
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed/o.json'))
bs=b.get('stable') or b.get('passed') or b.get('tests'); os_=o.get('passed') or o.get('tests')
m=f(bs)-f(os_); print('suite-ok' if not m else 'SUITE-FAILS %d'%len(m))
P
)
	(cd /repo && bash $d/demo.sh >/tmp/seed/demo1 2>&1); d1=$?
	out=$(/verif/check.sh $p 2>&1); c=$?
	git -C /repo checkout -q -- .
	echo "$n $p build=$b $t demo clean=$d0 bug=$d1 check=$c $(echo "$out" | grep -c "VIOLATION property=$p") :: $(echo "$out" | sed -n 2p | cut -c1-150)"
done
