#!/bin/bash
# harness.sh PROPERTY [BUDGET [SEED]]: runs the replay harness of a property alone
repo=${GOCV_REPO:-/repo}; p=$1; b=${2:-10}; s=${3:-1}
cd "$(dirname "$0")/.."; v=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
pkg=$(head -1 harness/${p}_test.go | grep -o 'pkg=[^ ]*' | cut -c5-)
d=$(mktemp -d)
pn=$(grep -m1 -oP '^package \K\w+' harness/${p}_test.go)
sed "s/package PKG/package $pn/" harness/support.go.txt > $d/support_test.go
python3 - "$repo" "$pkg" "$v" "$p" "$d" <<'P'
import sys,glob,json,os
repo,pkg,v,p,d=sys.argv[1:]
dir=os.path.normpath(os.path.join(repo,pkg))
r={m:"" for m in glob.glob(dir+'/*_test.go')}
r[f'{dir}/verif_{p.lower()}_test.go']=f'{v}/harness/{p}_test.go'
r[f'{dir}/verif_support_test.go']=d+'/support_test.go'
json.dump(dict(Replace=r),open(d+'/overlay.json','w'))
P
cd $repo && VERIF_STAT=$d/stat.json VERIF_BUDGET=$b VERIF_SEED=$s go test -vet=off $RACE -overlay $d/overlay.json -count=1 -timeout 300s -run "^TestVerif$p\$" $pkg 2>&1 | cut -c1-3000 | tail -30
cat $d/stat.json; echo
rm -r $d
