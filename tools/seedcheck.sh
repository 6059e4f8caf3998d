#!/bin/bash
# seedcheck.sh ID [nocheck]: confirms a planted change in the scratch copy /tmp/sb, then runs the check of its property on it
id=$1; d=/verif/seeded/$id
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
[ -d /tmp/sb/.git ] || cp -a /repo /tmp/sb
cd /tmp/sb && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash $d/demo.sh >/tmp/demo.log 2>&1 || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/demo.log; exit 1; }
git apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
go build ./... || { echo "$id: DOES NOT BUILD"; git checkout -q -- .; exit 1; }
bash $d/demo.sh >/tmp/demo.log 2>&1 && { echo "$id: DEMO PASSES WITH PATCH"; git checkout -q -- .; exit 1; }
go test -json -vet=off -count=1 ./... > /tmp/seedtests.json 2>/dev/null
python3 /opt/vp/results.py /tmp/seedtests.out gojson:/tmp/seedtests.json >/dev/null 2>&1
python3 - <<'P' || { echo "$id: STABLE TESTS FAIL"; git checkout -q -- .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtests.out'))
stable=b.get('stable') or b.get('passed') or b.get('tests')
m=[t for t in stable if t not in r['passed']]
print(m) if m else None
sys.exit(1 if m else 0)
P
echo "$id: confirmed"
if [ "$2" != nocheck ]; then
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
s=$(date +%s)
GOCV_REPO=/tmp/sb GOCV_BASE=/verif GOCV_OUT=/tmp/sbout VERIF_SEED=1 bash /verif/tools/check.sh $prop quick > /tmp/seedcheck.log 2>&1
rc=$?
echo "$id: check $prop rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/seedcheck.log)"
fi
git checkout -q -- .
