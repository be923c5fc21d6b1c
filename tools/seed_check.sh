#!/bin/bash
# seed_check.sh ID [--nobuildtests]: builds and tests with the patch in /repo, runs the demo with and without, restores /repo
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
for ID in "$@"; do
D=/verif/seeded/$ID
rm -rf "/tmp/seeddemo"; mkdir -p /tmp/seeddemo; cp -r "$D"/. /tmp/seeddemo/; find /tmp/seeddemo -name '*.diff' -delete; rm -f /tmp/seeddemo/meta.json
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || echo BUILD0
timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.demo0 2>&1; a=$?
git apply "$D/patch.diff" || exit 2
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
n=$(python3 -c "import json;print(len(json.load(open('/tmp/seed.json'))['passed']))")
timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.demo1 2>&1; b=$?
git checkout -q -- .
echo "$ID demo(unchanged)=$a tests=$n demo(patched)=$b"
done
bash /opt/vp/build.sh >/tmp/seed.log 2>&1
