#!/bin/bash
# seedtest.sh ID [nocheck]: verify a planted bug: demo on clean copy (0), builds + tests with patch, demo with patch (!=0), then the property's check on /repo
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain -uno)" ] || { echo "repo dirty"; exit 2; }
cp -a $S /tmp/seedcopy.$$; 
bash /tmp/seedcopy.$$/demo.sh > /tmp/demo.clean.log 2>&1; A=$?
git apply $S/patch.diff || { rm -rf /tmp/seedcopy.$$; exit 2; }
bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1; T=$(python3 -c "import json;d=json.load(open('/tmp/seed_test.json'));print(len(d['passed']),len(d['failed']))")
bash /tmp/seedcopy.$$/demo.sh > /tmp/demo.bug.log 2>&1; B=$?
C=-; if [ -z "$2" ]; then cd /verif; t0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py $P > /tmp/seed_check.$ID.log 2>&1; C="$? ($(( $(date +%s)-t0 )) s)"; fi
git -C /repo checkout -- .; rm -rf /tmp/seedcopy.$$
echo "$ID property=$P demo clean=$A bug=$B tests(pass fail)=$T check=$C $(grep -m1 VIOLATION /tmp/seed_check.$ID.log 2>/dev/null)"
