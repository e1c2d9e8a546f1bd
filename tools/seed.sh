#!/bin/bash
# seed.sh ID...: is the planted bug valid (applies, builds, passes the tests, the
# demonstration tells it apart), and do the checks see it? Works on /repo and
# undoes the change afterwards; run with a clean /repo only.
here=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
tests() { bash /opt/vp/test.sh /tmp/seed.$$.json >/dev/null 2>&1; python3 - /tmp/seed.$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
k=[x for x in b if isinstance(b[x],list)][0]
p=set(o['passed']) if isinstance(o.get('passed'),list) else set(x for x in o if o[x]=='passed')
m=[t for t in b[k] if t not in p]
print('tests ok' if not m else 'TESTS FAIL %s'%m[:3])
P
rm -f /tmp/seed.$$.json; }
for id in "$@"; do
	d=$here/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	tmp=$(mktemp -d); cp "$d"/* "$tmp"/; rm -f "$tmp"/*.diff "$tmp"/meta.json
	r=""
	(cd /repo && timeout 300 bash "$tmp/demo.sh" >/dev/null 2>&1) && r="demo0 ok" || r="DEMO FAILS ON CLEAN"
	git -C /repo apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; continue; }
	bash /opt/vp/build.sh >/dev/null 2>&1 && r="$r, builds" || r="$r, DOES NOT BUILD"
	r="$r, $(tests)"
	(cd /repo && timeout 300 bash "$tmp/demo.sh" >/dev/null 2>&1) && r="$r, DEMO PASSES WITH BUG" || r="$r, demo1 ok"
	caught=""
	for p in ${CHECKS:-$prop}; do
		out=$(cd "$here" && ./check.sh $p quick 2>&1); rc=$?
		if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p"; then caught="$caught $p"; else caught="$caught -$p($rc)"; fi
	done
	git -C /repo checkout -q -- .
	rm -rf "$tmp"
	echo "$id [$prop]: $r | checks:$caught"
done
