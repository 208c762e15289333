#!/bin/bash
# seed.sh ID PROPERTY NEEDS BREAKS EDIT.py DEMO.go : makes and confirms /verif/seeded/ID.
# EDIT.py is run in a scratch copy of /repo.
set -e
id=$1 prop=$2 needs=$3 breaks=$4 edit=$5 demo=$6
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
mkdir -p "$d"
trap 'git -C /repo checkout -q -- .' EXIT
(cd /repo && python3 "$edit")
git -C /repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "$id: empty patch"; exit 1; }
cp "$demo" "$d/demo.go"
if head -1 "$demo" | grep -q '^package main'; then cp /verif/tools/seed/demo.sh "$d/demo.sh"; else cp /verif/tools/seed/demo_pkg.sh "$d/demo.sh"; fi
python3 - "$d" "$prop" "$needs" "$breaks" <<'PY'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
PY
bash /opt/vp/build.sh || { echo "$id: DOES NOT BUILD"; exit 1; }
bash /opt/vp/test.sh /tmp/seed_out.json >/dev/null 2>&1 || true
python3 - <<'PY' || { echo "$id: TESTS FAIL"; exit 1; }
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
def passed(x): return set(x['passed'])
exp=set(b['stable'])
missing=exp-passed(o)
print("missing",missing) if missing else None
raise SystemExit(1 if missing else 0)
PY
(cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seed_demo_bug.txt 2>&1) && { echo "$id: DEMO PASSES WITH THE BUG"; exit 1; }
cd /verif && VERIF_SEED=1 timeout 900 bin/govc check -property "$prop" -tier quick > /tmp/seed_check.txt 2>&1 && res=MISSED || res=caught
grep VIOLATION /tmp/seed_check.txt | head -3 || true
git -C /repo checkout -q -- .
(cd /repo && timeout 300 bash "$d/demo.sh" > /tmp/seed_demo_ok.txt 2>&1) || { echo "$id: DEMO FAILS WITHOUT THE BUG"; cat /tmp/seed_demo_ok.txt; exit 1; }
echo "$id $prop: $res"
