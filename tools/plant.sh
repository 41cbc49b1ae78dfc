#!/bin/bash
# usage: plant.sh ID [notest]   confirms seeded/ID in a scratch copy of /repo mounted over /repo in a private namespace
V=$(dirname "$(dirname "$(realpath "$0")")")
id=$1; S=$V/seeded/$id; W=/tmp/plant_$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p "$W"; cp -a /repo "$W/repo"; mkdir -p "$W/reports" "$W/demo"
cp "$S"/* "$W/demo/"; for f in "$W"/demo/*.diff "$W"/demo/meta.json; do unlink "$f"; done
( cd "$W/repo" && git checkout -q -- . && git apply "$S/patch.diff" ) || { echo "$id: patch does not apply"; exit 1; }
( cd /repo && bash "$W/demo/demo.sh" >"$W/clean.log" 2>&1 ); clean=$?
unshare -Urm bash -c "mount --bind $W/repo /repo; mount --bind $W/reports /opt/vp/reports
cd /repo; bash $W/demo/demo.sh >$W/bad.log 2>&1; echo \$? >$W/bad.rc
bash /opt/vp/build.sh >$W/build.log 2>&1; echo \$? >$W/build.rc
[ '$2' = notest ] || { mkdir -p $W/r; sed 's#rm -rf \"\$R\"; mkdir -p \"\$R\";##' /opt/vp/test.sh > $W/test.sh; bash $W/test.sh $W/o.json >$W/test.log 2>&1; }
cd $V; bash ./check.sh $prop --dry >$W/check.log 2>&1; echo \$? >$W/check.rc"
miss=skipped
[ "$2" = notest ] || miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/o.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print(len(m), m[:3])")
echo "$id $prop: demo clean=$clean patched=$(cat $W/bad.rc) build=$(cat $W/build.rc) stable-missing=$miss check=$(cat $W/check.rc) $(grep -c VIOLATION $W/check.log)"
[ "$clean" = 0 ] || tail -5 "$W/clean.log"; [ "$(cat $W/bad.rc)" != 0 ] || tail -3 "$W/bad.log"
[ -n "$KEEP" ] || rm -rf "/tmp/plant_${id:?}"
