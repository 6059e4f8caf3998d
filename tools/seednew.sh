#!/bin/bash
# seednew.sh ID PROPERTY PKGDIR "needs" "breaks": takes the edits made in /tmp/sb (a copy of /repo) as a
# planted change and /tmp/demo_test.go as its demonstration
set -e
id=$1; prop=$2; pkg=$3
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/sb diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<X
#!/bin/bash
# runs the demonstration as an extra test of the package, without touching the repository
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:\$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
here=\$(cd "\$(dirname "\$0")" && pwd)
o=\$(mktemp /tmp/demo-XXXXXX.json)
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" > "\$o"
go test -vet=off -count=1 -timeout 200s ${RACE:+-race} -overlay "\$o" -run '^TestDemo\$' ./$pkg
rc=\$?
rm -f "\$o"
exit \$rc
X
python3 - "$d" "$prop" "$4" "$5" <<'P'
import sys,json
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+'/meta.json','w'),indent=1)
P
git -C /tmp/sb checkout -q -- .
bash /verif/tools/seedcheck.sh $id
