#!/bin/bash
# seed.sh ID PROPERTY "needs" "what it breaks": the change is in /repo's working tree, demo.sh already in /verif/seeded/ID
ID=$1; PROP=$2; D=/verif/seeded/$ID; mkdir -p $D
cd /repo
if [ -n "$(git diff --name-only)" ]; then git diff > $D/patch.diff; else git apply $D/patch.diff || exit 1; fi
[ -n "$3" ] && python3 - "$D" "$PROP" "$3" "$4" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
P
bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1 || { echo BUILD-FAIL; tail -5 /tmp/seed.build.log; git checkout -q -- .; exit 1; }
[ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test.log 2>&1; python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/seed.json'))['passed'])
print("tests: missing", sorted(b-o)[:5])
P
}
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/seed.demo.log 2>&1; echo "demo with change: $?"; tail -3 /tmp/seed.demo.log)
(cd /verif; python3 -m gpa.check $PROP 2>&1 | tail -4; echo "check exit ${PIPESTATUS[0]}")
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/seed.demo.log 2>&1; echo "demo without: $?"; tail -2 /tmp/seed.demo.log)
git -C /repo status --short
