#!/bin/bash
# seed.sh ID [check]: tries /verif/seeded/ID: demo on the unchanged tree, then
# with the patch: build, stable tests, demo, the property's check. "check": only that.
set -u
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
mkdir -p /tmp/w; trap 'git -C /repo checkout -q -- .' EXIT
if [ "${2:-}" != check ]; then
	demo=$(mktemp -d /tmp/demo-XXXXXX); cp -a $d/. $demo/; rm -f $demo/*.diff $demo/meta.json
	(cd /repo && timeout 300 bash $demo/demo.sh >/tmp/w/demo0.log 2>&1); r0=$?
	[ $r0 = 0 ] || tail -20 /tmp/w/demo0.log
fi
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
if [ "${2:-}" != check ]; then
	bash /opt/vp/build.sh >/tmp/w/build.log 2>&1 || { echo "$id: does not build"; tail /tmp/w/build.log; exit 2; }
	(cd /repo && timeout 300 bash $demo/demo.sh >/tmp/w/demo1.log 2>&1); r1=$?
	[ $r1 = 0 ] && tail -8 /tmp/w/demo1.log
	chmod -R u+w "$demo"; rm -rf "$demo"
	bash /opt/vp/test.sh /tmp/w/out.json >/tmp/w/test.log 2>&1
	python3 - <<'EOF'
import json
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/w/out.json'))
key = [k for k in b if isinstance(b[k], list)][0]
ok = set(o.get('passed') or o[key])
miss = [t for t in b[key] if t not in ok]
print("stable tests broken:", len(miss), miss[:5])
EOF
	echo "demo unchanged=$r0 patched=$r1"
fi
(cd /verif && timeout 900 env VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 check.py $prop >/tmp/w/check.log 2>&1); rc=$?
grep -E '^(VIOLATION|KNOWN)|failed after|held on|DATA RACE' /tmp/w/check.log | head -4
echo "$id: check $prop exit=$rc"
