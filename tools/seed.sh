#!/bin/bash
# seed.sh ID: confirm seeded/ID in a scratch copy: applies, builds, stable tests pass, demo 0 before and nonzero after.
# seed.sh --check ID: also run the property's check against it (applies to /repo and undoes it).
set -u
chk=0; [ "$1" = --check ] && { chk=1; shift; }
id=$1; S=/verif/seeded/$id
W=/tmp/seedwork_$id; rm -rf "$W"; cp -a /repo "$W"
cd "$W" || exit 1
. /opt/vp/env.sh
bash $S/demo.sh >/tmp/seed_$id.before 2>&1 || { echo "$id: demo FAILS on unchanged tree"; tail -5 /tmp/seed_$id.before; rm -rf "$W"; exit 1; }
git apply --check $S/patch.diff || { echo "$id: patch does not apply"; rm -rf "$W"; exit 1; }
git apply $S/patch.diff
go build ./... || { echo "$id: does not build"; rm -rf "$W"; exit 1; }
go test -vet=off -count=1 -json -skip '^TestParseArff$' ./... > /tmp/seed_$id.tests 2>/dev/null
python3 - "$id" <<'P' || { rm -rf "$W"; exit 1; }
import json,sys
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set()
for l in open('/tmp/seed_%s.tests'%sys.argv[1]):
    try: d=json.loads(l)
    except: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add(d['Package']+'/'+d['Test'])
bad=[t for t in st if t not in ok]
if bad: print(sys.argv[1]+': stable tests fail:',bad); sys.exit(1)
P
bash $S/demo.sh >/tmp/seed_$id.after 2>&1 && { echo "$id: demo PASSES with the patch"; rm -rf "$W"; exit 1; }
rm -rf "$W"
if [ $chk = 1 ]; then
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff
  (cd /verif && python3 run_check.py $p quick > /tmp/seed_$id.check 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id: confirmed; check $p exit $rc: $(grep VIOLATION /tmp/seed_$id.check)"
else echo "$id: confirmed"; fi
rm -f /tmp/seed_$id.before /tmp/seed_$id.after /tmp/seed_$id.tests
