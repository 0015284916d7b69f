#!/bin/bash
# Maintenance: turn the uncommitted change in /repo into /verif/seeded/$1, or
# (if there is none) re-verify it.  The folder must hold demo.sh and meta.json.
# Confirms that it builds, passes the tests, fails the demo only when applied,
# and runs the check of its property against it (skip with -n).
set -u
id=$1; d=/verif/seeded/$id
if ! git -C /repo diff --quiet; then git -C /repo diff >"$d/patch.diff"; else git -C /repo apply "$d/patch.diff" || exit 1; fi
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { tail -20 /tmp/seed.build; echo "$id: BUILD FAILED"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
python3 - <<'P' || { echo "$id: TESTS FAIL"; exit 1; }
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
b=b.get('passed') or b.get('tests') or b.get('stable') or b
m=[x for x in b if x not in set(r['passed'])]
print('missing', m[:5]) if m else None
raise SystemExit(1 if m else 0)
P
bash /opt/vp/build.sh >/dev/null 2>&1
t=$(mktemp -d); cp -a "$d/." "$t"; rm -f "$t/patch.diff" "$t/meta.json"
(cd /repo && timeout 300 bash "$t/demo.sh" >/tmp/seed.demo 2>&1); r1=$?
c=-
if [ "${2:-}" != -n ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /verif && python3 vf/run.py check $p) >/tmp/seed.check.$id 2>&1; c=$?
grep -a "VIOLATION\|ERROR" /tmp/seed.check.$id
python3 - $id $c <<'P'
import json, sys
f = '/verif/tools/seeded.json'
try: d = json.load(open(f))
except OSError: d = {}
v = [l for l in open('/tmp/seed.check.' + sys.argv[1], errors='replace') if l.startswith('VIOLATION')]
d[sys.argv[1]] = 'missed' if sys.argv[2] != '1' else 'obligation' if all('no-failing' in l for l in v) else 'input'
json.dump(d, open(f, 'w'), indent=1, sort_keys=True)
P
fi
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash "$t/demo.sh" >/tmp/seed.demo0 2>&1); r0=$?
rm -rf "$t"
echo "$id: demo clean=$r0 patched=$r1 check=$c"
[ $r0 = 0 ] && [ $r1 != 0 ] || { cat /tmp/seed.demo /tmp/seed.demo0; exit 1; }
