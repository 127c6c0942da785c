#!/bin/bash
# mkseed.sh ID PROP "needs" "what it breaks": records the edits made in the scratch copy /tmp/w as seeded/ID
# (demo_test.go is read from stdin), confirms it and runs its check.
set -u
id=$1; S=/verif/seeded/$id; mkdir -p $S
git -C /tmp/w diff > $S/patch.diff
git -C /tmp/w checkout -q -- .
cat > $S/demo_test.go
cp /verif/tools/demo_template.sh $S/demo.sh
python3 - "$S" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
bash /verif/tools/seed.sh --check $id
