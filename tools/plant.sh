#!/bin/bash
# plant.sh <id>: confirm a seeded bug in a scratch copy (build, stable tests, demo with/without), then run its check
# usage: plant.sh <id> [nocheck]
V=/verif; id=$1; S=$V/seeded/$id
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
W=/tmp/plant.$id; rm -rf "$W"; git -C /repo worktree prune; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"
cd "$W" || exit 1; git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x
D=/tmp/plantd.$id; rm -rf "$D"; cp -r "$S" "$D"; rm -f "$D"/*.diff "$D"/meta.json
bash "$D/demo.sh" >/tmp/p/$id.clean 2>&1; c=$?
git apply "$S/patch.diff" || { echo "$id PATCH FAILS"; exit 1; }
go build ./... || { echo "$id BUILD FAILS"; exit 1; }
go test -json -vet=off -count=1 -p 1 -timeout 2m ./... > /tmp/p/$id.json 2>/dev/null
python3 - $id <<'P'
import json,sys
id=sys.argv[1]
b=json.load(open('/opt/vp/BASELINE.json'))
res={}
for l in open(f'/tmp/p/{id}.json'):
    try:d=json.loads(l)
    except: continue
    if d.get('Action') in('pass','fail') and d.get('Test'): res[(d['Package'],d['Test'])]=d['Action']
f=[k for k,v in res.items() if v=='fail']
print(id,'tests',len(res),'failed',f)
P
bash "$D/demo.sh" >/tmp/p/$id.bug 2>&1; d=$?
echo "$id demo clean=$c bug=$d"
if [ "$2" != nocheck ]; then
 P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 for q in ${3:-$P}; do VERIF_REPO="$W" $V/check.sh $q quick > /tmp/p/$id.$q.check 2>&1; echo "$id check $q rc=$?"; tail -2 /tmp/p/$id.$q.check; done
fi
rm -rf "/tmp/plant.$id" "/tmp/plantd.$id"
