#!/bin/bash
# seedcheck.sh ID [PROP]: in /repo itself: apply, build, test, demo, run check, undo
set -u
id=$1; D=/verif/seeded/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
if [ "${FAST:-0}" = 0 ]; then
 bash /opt/vp/build.sh >/dev/null 2>&1; bash $D/demo.sh >/dev/null 2>&1; echo "$id demo unchanged: $?"
fi
git apply $D/patch.diff || { echo "does not apply"; exit 1; }
if [ "${FAST:-0}" = 0 ]; then
 bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1; python3 -c "import json;d=json.load(open('/tmp/seed_t.json'));print('$id tests passed',len(d['passed']),'failed',d['failed'])"
 bash $D/demo.sh >/dev/null 2>&1; echo "$id demo patched: $?"
fi
(cd /verif && timeout 900 python3 run.py $prop quick | tail -6 | cut -c1-300; echo "$id check exit ${PIPESTATUS[0]}")
git checkout -- . 
if [ "${FAST:-0}" = 0 ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
